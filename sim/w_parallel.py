# Workloads over openquake.commonlib.parallel: the process pool, the clock, the
# process table, the memory gauge, the environment and object identities are
# simulated; the module under test is real.
import os
import re
import gc
import sys
import weakref
import cPickle
import core
import env

# ------------------------------------------------------------------ tasks
# (top level functions: they travel to the workers by reference)


def st():
    return core.current().state


class Custom(Exception):
    pass


class Awkward(Exception):
    """An exception that cannot be printed"""
    def __str__(self):
        raise ValueError('unprintable')


class BadBoth(Exception):
    def __str__(self):
        return u'caf\xe9'


class Fatal(BaseException):
    pass


def local_classes():
    """Exceptions that pickle cannot find by their name"""
    class Local(ValueError):
        pass

    class Inner(Local):
        pass
    return Local, Inner


Local, Inner = local_classes()
BASE = {Local: (Local, ValueError, StandardError, Exception),
        Inner: (Inner, ValueError, StandardError, Exception)}
Shadowed = Local
Local = None


def raising_helper(kind, msg, depth=0):
    if depth:
        return raising_helper(kind, msg, depth - 1)
    raising_end(kind, msg)


def raising_end(kind, msg):
    if kind is SystemExit:
        sys.exit(msg)
    raise kind(msg)


FAILURES = [
    (ValueError, 'plain %s'), (KeyError, 'key %s'), (Custom, 'custom %s'),
    (KeyboardInterrupt, 'intr %s'), (SystemExit, 'exit %s'), (Fatal, 'fatal %s'),
    (ValueError, u'caf\xe9 %s'), (ValueError, 'caf\xc3\xa9 %s'), (Awkward, 'awk %s'),
    (BadBoth, 'both %s'), (GeneratorExit, 'gen %s'), (StopIteration, 'stop %s'),
    (AssertionError, ''), (MemoryError, 'mem %s'), (RuntimeError, 'rt %s'),
    (UnicodeError, u'u\u1234 %s'), (OSError, 'os %s'), (Custom, u'ascii unicode %s'),
    (ValueError, '100%% of %%s %s'), (Shadowed, 'local %s'), (Inner, 'inner %s'),
]


class Lookalike(object):
    """Has the attributes of a packet without being one"""
    pik = 'not pickled'
    clsname = 'Item'

    def __init__(self, value):
        self.value = value

    def __len__(self):
        return 0

    def unpickle(self):
        return 'nothing to unpickle'


class Item(object):
    """A picklable, mutable argument or result"""
    def __init__(self, value):
        self.value = value

    def __hash__(self):
        return 12

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.value == other.value

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Item(%r)' % (self.value,)


def body(*args):
    """The function of all tasks: looks up what to do by the number of its call"""
    s = st()
    batch = s['batches'][args[0]] if args and isinstance(args[0], int) else s['noargs']
    return batch.execute(args)


def sum_all(*args):
    return body(*args)


def do_other(*args):
    return body(*args)


FUNCS = [sum_all, do_other]
FALSY = [None, 0, '', [], False, {}, 0.0, ()]
# results that look like something else
ODD = [(None, ValueError), ('Traceback (most recent call last):', KeyError), ValueError,
       ((1, None), None), 'ValueError: no', RuntimeError]


class Faltering(object):
    """An iterator that raises once and then goes on"""
    def __init__(self, items, stop, error):
        self.items = items
        self.stop = stop
        self.error = error
        self.pos = 0

    def __iter__(self):
        return self

    def next(self):
        if self.pos == self.stop:
            self.stop = None
            raise self.error('no more arguments')
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class Batch(object):
    """One batch of tasks, its expected results and what was observed of it"""
    def __init__(self, sim, ident, size, fail=(), noargs=False):
        self.sim = sim
        self.ident = ident
        self.n = size
        self.noargs = noargs
        self.func = FUNCS[sim.draw(2)]
        self.ran = []                 # (k, in_worker, pid)
        self.vals = []                # values given to agg
        self.fail = dict(fail)        # k -> (class, message)
        self.last = None              # last accumulator returned by agg
        self.results = []
        self.args = []
        falsy = sim.chance(30)
        odd = sim.chance(15)
        self.share = Item('shared') if sim.chance(30) else None
        for k in range(size):
            if noargs:
                a = ()
            else:
                a = (ident, k)
                if self.share is not None and sim.draw(2):
                    a += (self.share, [k])
            self.args.append(a)
            if falsy and sim.draw(2):
                r = FALSY[sim.draw(len(FALSY))]
            elif odd and sim.draw(3) == 1:
                r = ODD[sim.draw(len(ODD))]
            else:
                r = Item((ident, k)) if sim.draw(2) else ('r', ident, k)
            self.results.append(r)
        # duplicate argument tuples: several tasks of the same arguments
        if size > 1 and not noargs and sim.chance(25):
            i, j = sim.draw(size), sim.draw(size)
            if i not in self.fail and j not in self.fail:
                self.args[i] = self.args[j]
                self.results[i] = self.results[j]
        self.futures = []
        self.agg_fail = None          # index of the agg call that raises
        self.agg_error = AggError
        self.depth = 0                # frames between the task and the error
        self.report = None            # the progress reports of the batch
        self.nagg = 0
        self.mode = 'agg'
        self.progress = []            # (aggregated so far, message)
        self.on_agg = None

    def execute(self, args):
        """Runs in a worker (or in process)"""
        s = self.sim.state
        if self.noargs:
            k = len(self.ran)
            self.ran.append((k, s.get('in_worker', 0), os.getpid()))
            k = min(k, self.n - 1)
            return self.results[k]
        k = args[1]
        self.ran.append((k, s.get('in_worker', 0), os.getpid()))
        if len(args) > 2:  # scribble on the arguments
            args[2].value = 'scribbled'
            args[3].append('scribbled')
        self.sim.log('exec', self.ident, k)
        if k in self.fail:
            cls, msg = self.fail[k]
            raising_helper(cls, msg, self.depth)
        return self.results[k]

    # ---- the caller's side
    def agg(self, acc, val):
        sim = self.sim
        sim.log('agg', self.ident, val)
        sim.check(sim.state.get('in_worker', 0) == 0, 'agg-in-worker', '')
        if self.report is not None:
            self.report.check_lag()
        if not (acc is self.last):
            sim.fail('wrong-accumulator', 'batch %s call %d got %s instead of the previous one %s' % (
                self.ident, self.nagg, core.text(acc), core.text(self.last)))
        self.vals.append(val)
        i = self.nagg
        self.nagg += 1
        if self.agg_fail == i:
            self.nagg -= 1
            raise self.agg_error('agg %d' % i)
        if self.on_agg is not None:
            self.on_agg(i)
        self.last = self.newacc(i)
        return self.last

    def newacc(self, i):
        k = self.acc_kind
        if k == 0:
            return Item(('acc', self.ident, i))
        elif k == 1:
            return None
        elif k == 2:
            return 0
        # accumulators that come and go
        return (Item(('acc', self.ident, i)), 0, [], None, '', Item(()))[(i + 1) % 6]

    def start(self):
        self.acc_kind = self.sim.draw(4)
        self.last = self.newacc(-1)
        self.initial = self.last
        return self.last

    def given(self):
        """The arguments in one of the shapes a caller may use"""
        k = self.sim.draw(4)
        if k == 0:
            return list(self.args)
        elif k == 1:
            return tuple(self.args)
        elif k == 2:
            return iter(list(self.args))
        return self.lazily()

    def lazily(self):
        for i, a in enumerate(self.args):
            self.sim.log('gen', i)
            yield a

    def check_streaming(self):
        done = [f for f in self.futures if f.done()]
        if self.mode == 'agg' and len(done) > self.nagg:
            self.sim.fail('not-streaming', 'batch %s: aggregation waits for an unfinished task while '
                          '%d finished results were not aggregated' % (self.ident, len(done) - self.nagg))

    def check_complete(self, got):
        sim = self.sim
        if self.mode == 'agg':
            if not (got is self.last):
                sim.fail('wrong-result', 'batch %s returned %s, the last accumulator is %s' % (
                    self.ident, core.text(got), core.text(self.last)))
            self.check_multiset(self.vals, self.results)
        else:
            sim.same(got, self.n, 'wrong-wait-count', 'wait of batch %s' % self.ident)
        if self.noargs:
            sim.same(len(self.ran), self.n, 'wrong-executions', 'number of executions')
        else:
            sim.same(sorted(r[0] for r in self.ran), sorted(a[1] for a in self.args),
                     'wrong-executions', 'executed tasks of batch %s' % self.ident)

    def check_multiset(self, got, expected):
        left = list(expected)
        for v in got:
            for i, x in enumerate(left):
                if v == x and type(v) is type(x):
                    del left[i]
                    break
            else:
                self.sim.fail('wrong-value', 'batch %s: %s was aggregated but is no (remaining) result'
                              % (self.ident, core.text(v)))
        if left:
            self.sim.fail('lost-result', 'batch %s: results %s were never aggregated' % (
                self.ident, core.text(left)))


class AggError(Exception):
    pass


class IterError(Exception):
    pass


def setup(sim, **pool):
    sim.state['batches'] = {}
    sim.state['current'] = None
    par = env.boot('parallel')
    if pool:
        sim.state['pool_conf'] = pool

    def submit_hook(fut, fn, args):
        b = sim.state['current']
        if b is not None:
            b.futures.append(fut)
        sim.state['pool_used'] = sim.state.get('pool_used', 0) + 1

    def block_hook(futures):
        for b in sim.state.get('aggregating', ()):
            b.check_streaming()
    sim.state['submit_hook'] = submit_hook
    sim.state['block_hook'] = block_hook
    return par


def new_batch(sim, size, **kw):
    ident = len(sim.state['batches'])
    b = Batch(sim, ident, size, **kw)
    sim.state['batches'][ident] = b
    if b.noargs:
        sim.state['noargs'] = b
    return b


def note_order(sim, b):
    """Record the interleaving reached: order of completions of the batch"""
    order = tuple(r[0] for r in b.ran[:12])
    sim.seen('order', b.n, order)
    if b.n > 1 and list(order) != sorted(order):
        sim.nontrivial = True
        sim.probe('out-of-order completion')


def sizes(sim, big=12):
    k = sim.draw(10)
    if k < 8:
        return sim.draw(9)
    if k == 9 and sim.draw(big) == 3:
        # thousands of functions
        sim.probe('batch of more than 1000 tasks')
        return 1000 + sim.draw(300)
    return 10 + sim.draw(140)


def run_map_reduce(sim, par, b, name=None):
    acc = b.start()
    sim.state['current'] = b
    sim.state.setdefault('aggregating', []).append(b)
    try:
        kw = {} if name is None else dict(name=name)
        return sim.attempt(par.map_reduce, b.func, b.given(), b.agg, acc, **kw)
    finally:
        sim.state['aggregating'].remove(b)
        sim.state['current'] = None


def no_progress(msg, *args):
    msg % args


def manager(sim, par, b, progress=no_progress, name=None):
    if name is None:
        return par.TaskManager(b.func, progress)
    return par.TaskManager(b.func, progress, name)


def submit(sim, tm, b, lo=0, hi=None):
    sim.state['current'] = b
    try:
        for a in b.args[lo:hi]:
            ok, res = sim.attempt(tm.submit, *a)
            if not ok:
                return False, res
    finally:
        sim.state['current'] = None
    return True, None


def aggregate(sim, tm, b):
    if b.mode == 'wait':
        return sim.attempt(tm.wait)
    acc = b.start()
    sim.state.setdefault('aggregating', []).append(b)
    try:
        return sim.attempt(tm.aggregate_results, b.agg, acc)
    finally:
        sim.state['aggregating'].remove(b)


# ------------------------------------------------------------------ C01

def sequential(sim, pct):
    """Switch the distribution off in some of the runs"""
    if sim.chance(pct):
        os.environ['OQ_NO_DISTRIBUTE'] = '1'
        sim.probe('sequential mode')
        return True
    return False


def c01(sim):
    par = setup(sim)
    sequential(sim, 15)
    nbatches = 1 + sim.draw(3)
    kind = sim.draw(5)
    if kind == 0:       # map_reduce calls, one after the other
        for _ in range(nbatches):
            b = new_batch(sim, sizes(sim, 5), noargs=sim.chance(10))
            ok, res = run_map_reduce(sim, par, b)
            done(sim, b, ok, res)
    elif kind == 1:     # one manager, reused
        b = new_batch(sim, sizes(sim))
        tm = manager(sim, par, b)
        for i in range(nbatches):
            if i:
                func = b.func
                b = new_batch(sim, sizes(sim))
                b.func = func
            b.mode = sim.pick('agg', 'wait')
            ok, res = submit(sim, tm, b)
            if ok:
                ok, res = aggregate(sim, tm, b)
            done(sim, b, ok, res)
    elif kind == 2:     # interleaved managers
        bs = [new_batch(sim, sim.draw(8)) for _ in range(nbatches + 1)]
        tms = [manager(sim, par, b) for b in bs]
        todo = []
        for i, b in enumerate(bs):
            todo.extend([i] * b.n)
        todo = sim.shuffled(todo)
        pos = [0] * len(bs)
        for i in todo:
            ok, res = submit(sim, tms[i], bs[i], pos[i], pos[i] + 1)
            if not ok:
                done(sim, bs[i], ok, res)
            pos[i] += 1
        for i in sim.shuffled(range(len(bs))):
            bs[i].mode = sim.pick('agg', 'wait')
            ok, res = aggregate(sim, tms[i], bs[i])
            done(sim, bs[i], ok, res)
    elif kind == 3:     # nested: aggregating one batch starts another
        outer = new_batch(sim, 1 + sim.draw(6))

        def nested(i):
            if sim.draw(3) == 1:
                inner = new_batch(sim, sim.draw(5))
                outer_hidden = sim.state['aggregating']
                sim.state['aggregating'] = []
                outer.nagg_pending = True
                try:
                    ok, res = run_map_reduce(sim, par, inner)
                finally:
                    sim.state['aggregating'] = outer_hidden
                done(sim, inner, ok, res)
                sim.probe('nested batch')
        outer.on_agg = nested
        ok, res = run_map_reduce(sim, par, outer)
        done(sim, outer, ok, res)
    else:               # wait only, through a manager
        b = new_batch(sim, sizes(sim), noargs=sim.chance(10))
        b.mode = 'wait'
        tm = manager(sim, par, b)
        ok, res = submit(sim, tm, b)
        if ok:
            ok, res = aggregate(sim, tm, b)
        done(sim, b, ok, res)


def done(sim, b, ok, res):
    if not ok:
        sim.fail('batch-failed', 'batch %s: %s' % (b.ident, core.exc_text(res)))
    b.check_complete(res)
    sim.check(all(f.done() for f in b.futures), 'unfinished-tasks',
              'batch %s returned before all its tasks finished', b.ident)
    note_order(sim, b)


# ------------------------------------------------------------------ C02

def failing_size(sim):
    return 1 + (sim.draw(9) if sim.draw(8) < 7 else 10 + sim.draw(60))


def make_failures(sim, n):
    nf = 1 if sim.draw(2) == 0 else 1 + sim.draw(n)
    out = {}
    for _ in range(nf):
        cls, msg = FAILURES[sim.draw(len(FAILURES))]
        k = sim.draw(n)
        out[k] = (cls, msg % ('T%dT' % k) if '%s' in msg else msg)
    return out


def printable(msg):
    try:
        msg.encode('ascii')
    except UnicodeError:
        return False
    return True


def check_error(sim, b, err):
    """err must tell about one of the failures of the batch"""
    if not isinstance(err, RuntimeError):
        sim.fail('wrong-error-class', 'batch raised %s instead of a RuntimeError' % core.exc_text(err))
    txt = err.args[0] if err.args else ''
    if not isinstance(txt, basestring):
        sim.fail('wrong-error-text', 'argument %s' % core.text(txt))
    for k, (cls, msg) in sorted(b.fail.items()):
        if cls.__name__ not in txt:
            continue
        if printable(msg) and cls not in (Awkward, BadBoth) and msg not in txt:
            continue
        if 'raising_end' in txt and 'execute' in txt and b.func.__name__ in txt:
            return k
    sim.fail('wrong-error-text', 'the error does not name class, message and traceback of any of the '
             'failures %s: %s' % (core.text(sorted((k, v[0].__name__, v[1]) for k, v in b.fail.items()), 200),
                                  core.text(txt[-300:])))


def check_no_damage(sim, b):
    """On the way to an error nothing was aggregated twice or run twice"""
    good = [r for k, r in enumerate(b.results) if k not in b.fail]
    left = list(good)
    for v in b.vals:
        for i, x in enumerate(left):
            if v == x and type(v) is type(x):
                del left[i]
                break
        else:
            sim.fail('wrong-value', 'aggregated %s is no (remaining) result' % core.text(v))
    ks = sorted(r[0] for r in b.ran)
    given = sorted(a[1] for a in b.args)
    for k in set(ks):
        sim.check(ks.count(k) <= given.count(k), 'executed-twice', 'task %s', k)


AGG_ERRORS = [AggError, StopIteration, KeyError, RuntimeError, OSError, AssertionError,
              GeneratorExit, KeyboardInterrupt, Custom, IndexError, AttributeError]


def pool_error(default):
    """What the futures of a dying pool raise"""
    sim = core.current()
    import concurrent.futures as cf
    k = sim.draw(10)
    if k < 3:
        return default
    return (cf.CancelledError(), cf.TimeoutError(), OSError(12, 'Cannot allocate memory'),
            IOError(32, 'Broken pipe'), EOFError(), cPickle.UnpicklingError('truncated'),
            MemoryError())[k - 3]


def c02(sim):
    kind = sim.draw(6)
    pool = {}
    n = failing_size(sim)
    if kind == 4:
        pool = dict(crash_after=sim.draw(n + 1), workers=1 + sim.draw(3))
    if kind == 4:
        pool['crash_with'] = pool_error
    par = setup(sim, **pool)
    if kind == 5:
        return wrapper_always_returns(sim, par)
    seq = kind < 4 and sequential(sim, 20)
    fail = make_failures(sim, n) if kind in (0, 1) else {}
    b = new_batch(sim, n, fail=fail)
    b.depth = sim.pick(0, 0, 1, 7, 25)
    unpicklable = None
    if kind == 1 and not seq and sim.chance(20):
        # a result that does not survive the way back
        unpicklable = sim.draw(n)
        if unpicklable in b.fail or b.args.count(b.args[unpicklable]) > 1:
            unpicklable = None
        else:
            b.results[unpicklable] = lambda: None
            sim.fault('unpicklable-result')
    if kind == 2:
        b.agg_fail = sim.draw(n)
        b.agg_error = AGG_ERRORS[sim.draw(len(AGG_ERRORS))]
        sim.fault('agg-raises')
    for _ in fail:
        sim.fault('task-raises')
    if kind == 3:
        stop = sim.draw(n + 1)
        iter_error = sim.pick(IterError, KeyError, TypeError, IOError, KeyboardInterrupt,
                              RuntimeError, ValueError, OSError, AttributeError, IndexError,
                              AssertionError, MemoryError, EOFError, UnicodeError,
                              ArithmeticError, ImportError, SystemExit, Exception, Fatal)
        sim.fault('args-iterator-raises')

        def bad_args():
            for i, a in enumerate(b.args):
                if i == stop:
                    break
                yield a
            raise iter_error('no more arguments')
        b.given = bad_args
        if sim.draw(3) == 1:
            # not a generator: it goes on after the error
            b.given = lambda: Faltering(b.args, stop, iter_error)
    if kind == 4 and sim.draw(3) == 1:
        # the pool takes no more tasks, those it has are finished
        pool = sim.state['pool_conf']
        pool['refuse_after'] = pool.pop('crash_after')
        pool['refuse_with'] = sim.pick(
            'BrokenProcessPool', 'RuntimeError', 'OSError', 'IOError', 'MemoryError')
        pool.pop('crash_with')
    if kind == 1 or (kind == 4 and sim.draw(2)):
        tm = manager(sim, par, b)
        b.mode = sim.pick('agg', 'wait')
        ok, res = submit(sim, tm, b)
        if ok:
            ok, res = aggregate(sim, tm, b)
    else:
        ok, res = run_map_reduce(sim, par, b)
    note_order(sim, b)
    check_no_damage(sim, b)
    crashed = 'fault:worker-crash' in sim.counts
    if kind == 4 and not any(f._exception is not None for f in b.futures) and \
            len(b.futures) == n:
        sim.check(ok, 'batch-failed', 'nothing was lost in the crash')
        b.check_complete(res)
    elif ok:
        sim.fail('swallowed', 'the batch returned %s although %s' % (core.text(res), {
            0: 'tasks failed', 1: 'tasks failed', 2: 'the aggregation function raised',
            3: 'the argument iterator raised', 4: 'the pool broke'}[kind]))
    elif kind in (0, 1) and unpicklable is None:
        check_error(sim, b, res)
    if not ok and isinstance(res, (core.SimHang,)):
        raise res


def wrapper_always_returns(sim, par):
    """safely_call: a pair, whatever the function does"""
    for _ in range(1 + sim.draw(4)):
        if sim.draw(3) == 0:
            b = new_batch(sim, 1)
            ok, res = sim.attempt(par.safely_call, b.func, b.args[0])
            sim.check(ok, 'wrapper-raised', core.exc_text(res) if not ok else '')
            sim.check(isinstance(res, tuple) and len(res) == 2 and res[1] is None
                      and res[0] == b.results[0], 'wrong-pair', 'got %s', core.text(res))
            continue
        b = new_batch(sim, 1, fail=make_failures(sim, 1))
        sim.fault('task-raises')
        ok, res = sim.attempt(par.safely_call, b.func, b.args[0])
        if not ok:
            sim.fail('wrapper-raised', 'the wrapper raised %s for a task raising %s' % (
                core.exc_text(res), b.fail[0][0].__name__))
        sim.check(isinstance(res, tuple) and len(res) == 2, 'wrong-pair', 'got %s', core.text(res))
        txt, cls = res
        raised = b.fail[0][0]
        sim.check(cls in BASE.get(raised, (raised,)), 'wrong-pair', 'class %s', core.text(cls))
        check_error(sim, b, RuntimeError(txt))


# ------------------------------------------------------------------ C03

ND_TRUE = ['1', 'true', 'yes', 'TRUE', 'Yes', 'yEs', 'True', 'YES', 'tRuE']
ND_FALSE = [None, '', '0', 'no', 'false', '2', 'on', 'y', 't', ' 1', '11', 'yes ', 'True1', '01', 'None']


def c03(sim):
    par = setup(sim)
    prev = None
    tm = None
    if sim.chance(25):
        def memory():
            level = sim.pick(20.0, 80.5, 99.0, 91.0, 100.0)
            if level > 80:
                sim.fault('memory-pressure')
            return level
        sim.state['memory'] = memory
    for i in range(1 + sim.draw(4)):
        seq = bool(sim.draw(2))
        value = ND_TRUE[sim.draw(len(ND_TRUE))] if seq else ND_FALSE[sim.draw(len(ND_FALSE))]
        if prev is not None and prev != seq:
            sim.nontrivial = True
            sim.probe('mode switched between batches')
        prev = seq
        if value is None:
            os.environ.pop('OQ_NO_DISTRIBUTE', None)
        else:
            os.environ['OQ_NO_DISTRIBUTE'] = value
        sim.log('env', value)
        n = sim.draw(9)
        fail = {}
        if n and sim.chance(30):
            for _ in range(1 + sim.draw(2)):
                cls, msg = FAILURES[sim.pick(0, 1, 2, 14)]
                k = sim.draw(n)
                fail[k] = (cls, msg % ('T%dT' % k))
            sim.fault('task-raises')
        b = new_batch(sim, n, fail=fail)
        sim.state['pool_used'] = 0
        b.acc_kind = 0
        share_before = None if b.share is None else b.share.value
        if sim.draw(2) == 0:
            ok, res = run_map_reduce(sim, par, b)
        else:
            if tm is None or tm.oqtask is not b.func or sim.draw(2):
                tm = manager(sim, par, b)
            else:
                sim.probe('manager reused')
            ok, res = submit(sim, tm, b)
            if ok:
                ok, res = aggregate(sim, tm, b)
        where = set(bool(w) for _k, w, _p in b.ran)
        if seq:
            sim.check(sim.state['pool_used'] == 0, 'pool-used',
                      'OQ_NO_DISTRIBUTE=%r but %d submissions to the pool', value, sim.state['pool_used'])
            sim.check(True not in where, 'ran-in-worker', '')
            ran = [r[0] for r in b.ran]
            expect = [a[1] for a in b.args]
            first = min([i for i, k in enumerate(expect) if k in fail] or [n])
            if ok:
                sim.same(ran, expect, 'wrong-order', 'executions')
            else:
                # eager or lazy, but one after the other, in order, up to the first failure at least
                sim.same(ran, expect[:len(ran)], 'wrong-order', 'executions')
                sim.check(len(ran) > first, 'wrong-order', 'failure before task %s ran', first)
            want = [b.results[i] for i in range(first)]
            sim.same(b.vals, want, 'not-sequential-reduce', 'values aggregated, in order')
            if fail and not ok:
                k = check_error(sim, b, res)
                txt = res.args[0]
                sim.check('T%dT' % expect[first] in txt, 'not-sequential-reduce',
                          'the error is not the one of the first failing task %s', first)
        else:
            sim.check(False not in where, 'ran-in-caller',
                      'OQ_NO_DISTRIBUTE=%r but tasks ran in the calling process', value)
            if n:
                sim.check(sim.state['pool_used'] >= n, 'pool-not-used', 'value %r', value)
            if b.share is not None:
                sim.same(b.share.value, share_before, 'argument-not-copied', 'shared argument')
            note_order(sim, b)
        if not ok:
            tm = None  # what a manager does after a failure is not specified
        if fail:
            sim.check(not ok, 'swallowed', 'task failures were swallowed, value %r', value)
            if not seq:
                check_error(sim, b, res)
                check_no_damage(sim, b)
        else:
            if not ok:
                sim.fail('batch-failed', core.exc_text(res))
            b.check_complete(res)


# ------------------------------------------------------------------ C04

SPAWN = re.compile(r'(\d+)')
PERCENT = re.compile(r'(\d+)\s*%')


class Reports(object):
    """Checks the reports of one batch as they come"""
    def __init__(self, sim, b, name):
        self.sim = sim
        self.b = b
        self.name = name
        self.spawned = 0
        self.last = 0
        self.final = 0
        self.count = 0
        b.report = self

    def check_lag(self):
        """The reports so far, when the next result comes"""
        b = self.b
        exact = 100. * b.nagg / b.n
        self.sim.check(self.last >= exact - 1 - 1e-6, 'too-low',
                       'the last report is %d%% with %d of %d aggregated', self.last, b.nagg, b.n)

    def report(self, msg):
        sim, b = self.sim, self.b
        sim.log('report', b.ident, b.nagg, msg)
        m = PERCENT.search(msg)
        sim.check(self.name in msg, 'wrong-report', 'report %r does not carry the name %s', msg, self.name)
        if m is None:
            self.spawned += 1
            nums = [int(x) for x in SPAWN.findall(msg.replace(self.name, ''))]
            sim.check(nums[:1] == [b.n], 'wrong-report', 'spawn report %r for %d tasks', msg, b.n)
            sim.check(b.nagg == 0 and self.spawned == 1 and self.count == 0, 'wrong-report',
                      'spawn report %r after %d aggregations', msg, b.nagg)
            return
        sim.check(self.spawned == 1, 'wrong-report', 'percentage %r before the spawn report', msg)
        p = int(m.group(1))
        self.count += 1
        sim.check(p > self.last, 'not-increasing', 'percentage %d after %d', p, self.last)
        self.last = p
        exact = 100. * b.nagg / b.n if b.n else 100.
        sim.check(p <= exact + 1e-6, 'too-high', '%d%% reported with %d of %d aggregated', p, b.nagg, b.n)
        sim.check(p >= exact - 1 - 1e-6, 'too-low', '%d%% reported with %d of %d aggregated', p, b.nagg, b.n)
        if p == 100:
            self.final += 1

    def __call__(self, msg, *args):
        self.report(msg % args if args else msg)

    def check(self, ok):
        sim, b = self.sim, self.b
        sim.check(self.spawned == 1, 'wrong-report', '%d spawn reports', self.spawned)
        if ok and b.n:
            sim.check(self.final == 1, 'no-final-report', '100%% was reported %d times', self.final)
            # never more than one percent behind what was aggregated
        if not ok:
            sim.check(self.final == 0, 'false-final-report', 'a failed batch reported 100%%')
        sim.seen('reports', b.n, self.count, ok)


def c04(sim):
    par = setup(sim)
    if sim.chance(25):
        os.environ['OQ_NO_DISTRIBUTE'] = '1'
    nb = 1 + sim.draw(3)
    n_max = 9 if sim.draw(3) else 260
    kind = sim.draw(3)
    routes = {}

    def log_hook(level, msg):
        if level != 'INFO':
            return
        for name, rep in routes.items():
            if name in msg:
                rep.report(msg)
                return
        sim.fail('wrong-report', 'report %r carries no known name' % msg)
    sim.state['log_hook'] = log_hook

    def make(i, n=None):
        if n is None:
            n = sim.draw(n_max)
            if n_max > 9 and n > 200 and sim.draw(8) == 3:
                n += 900
                sim.probe('batch of more than 1000 tasks')
        fail = {}
        if n and sim.chance(25):
            k = sim.draw(n) if sim.draw(2) else n - 1
            fail[k] = FAILURES[0][0], 'plain T%dT' % k
            sim.fault('task-raises')
        b = new_batch(sim, n, fail=fail)
        if n and not fail and sim.chance(10):
            b.agg_fail = sim.pick(n - 1, sim.draw(n))
            sim.fault('agg-raises')
        return b

    def finish(b, rep, ok, res):
        if b.fail or b.agg_fail is not None:
            sim.check(not ok, 'swallowed', '')
        elif not ok:
            sim.fail('batch-failed', core.exc_text(res))
        rep.check(ok)
        note_order(sim, b)

    if kind == 0:       # map_reduce reports through logging.info
        for i in range(nb):
            b = make(i)
            name = None if sim.draw(2) else 'kind-%s' % 'abc'[i]
            rep = Reports(sim, b, name or b.func.__name__)
            routes.clear()
            routes[rep.name] = rep
            ok, res = run_map_reduce(sim, par, b, name)
            finish(b, rep, ok, res)
    elif kind == 1:     # interleaved managers with their own progress functions
        bs, reps, tms = [], [], []
        for i in range(nb):
            b = make(i)
            name = None if sim.draw(2) else 'kind-%s' % 'abc'[i]
            rep = Reports(sim, b, name or b.func.__name__)
            bs.append(b)
            reps.append(rep)
            tms.append(manager(sim, par, b, rep, name))
        todo = []
        for i, b in enumerate(bs):
            todo.extend([i] * b.n)
        if len(todo) < 40:
            todo = sim.shuffled(todo)
        pos = [0] * nb
        for i in todo:
            ok, res = submit(sim, tms[i], bs[i], pos[i], pos[i] + 1)
            sim.check(ok, 'batch-failed', 'submit: %s', res)
            pos[i] += 1
        for i in sim.shuffled(range(nb)):
            ok, res = aggregate(sim, tms[i], bs[i])
            finish(bs[i], reps[i], ok, res)
    else:               # nested batches and a reused manager
        outer = make(0, 1 + sim.draw(12))
        if sim.draw(2):
            return nested_managers(sim, par, make, finish, outer)
        rep = Reports(sim, outer, 'outer')
        routes['outer'] = rep

        def nested(i):
            if sim.draw(4) == 1:
                inner = make(1, sim.draw(7))
                r2 = Reports(sim, inner, 'inner')
                routes['inner'] = r2
                hidden = sim.state['aggregating']
                sim.state['aggregating'] = []
                try:
                    ok, res = run_map_reduce(sim, par, inner, 'inner')
                finally:
                    sim.state['aggregating'] = hidden
                finish(inner, r2, ok, res)
                sim.probe('nested batch')
        outer.on_agg = nested
        ok, res = run_map_reduce(sim, par, outer, 'outer')
        finish(outer, rep, ok, res)


def nested_managers(sim, par, make, finish, outer):
    """Batches of the same name, one aggregated while the other is"""
    name = sim.pick(None, 'same')
    rep = Reports(sim, outer, name or outer.func.__name__)
    tm = manager(sim, par, outer, rep, name)

    def nested(i):
        if sim.draw(4) == 1:
            inner = make(1, sim.draw(7))
            inner.func = outer.func
            r2 = Reports(sim, inner, rep.name)
            tm2 = manager(sim, par, inner, r2, name)
            hidden = sim.state['aggregating']
            sim.state['aggregating'] = []
            current = sim.state['current']
            try:
                ok, res = submit(sim, tm2, inner)
                sim.check(ok, 'batch-failed', 'submit: %s', res)
                ok, res = aggregate(sim, tm2, inner)
            finally:
                sim.state['aggregating'] = hidden
                sim.state['current'] = current
            finish(inner, r2, ok, res)
            sim.probe('nested batch')
    outer.on_agg = nested
    ok, res = submit(sim, tm, outer)
    sim.check(ok, 'batch-failed', 'submit: %s', res)
    ok, res = aggregate(sim, tm, outer)
    finish(outer, rep, ok, res)


# ------------------------------------------------------------------ C05

class Proc(object):
    """A simulated process with a resident size and a mood"""
    def __init__(self, sim, pid):
        self.sim = sim
        self.pid = pid
        self.rss = 1000 * pid + sim.draw(50)
        self.alive = True
        self.denied = False
        self.readings = []

    def memory_info(self):
        import psutil
        self.sim.log('measure', self.pid)
        if not self.alive:
            self.readings.append(None)
            raise psutil.NoSuchProcess(self.pid)
        if self.denied:
            self.readings.append(None)
            raise psutil.AccessDenied(self.pid)
        self.readings.append(self.rss)
        return self.rss, self.rss * 2

    def disturb(self):
        sim = self.sim
        self.rss += sim.pick(0, 7, -300, 100000)
        k = sim.draw(8)
        if k == 5:
            self.denied = not self.denied
            sim.fault('access-denied' if self.denied else 'access-restored')
            sim.log('deny' if self.denied else 'allow', self.pid)
        elif k == 6:
            self.alive = False
            sim.fault('process-death')
            sim.log('die', self.pid)
        elif k == 7 and not self.alive:
            # the pid is used again by another process: psutil sees the old one dead
            pass


class BlockError(Exception):
    pass


class BlockFatal(BaseException):
    pass


def c05(sim):
    import datetime
    par = setup(sim)
    procs = sim.state['procs'] = {}
    sim.state['pid'] = 10
    npr = 1 + sim.draw(4)
    for pid in range(10, 10 + npr):
        procs[pid] = Proc(sim, pid)
    reads = []

    def clock():
        k = sim.draw(6)
        if k == 4:
            sim.now += sim.pick(3600., -3600., 1e6, -1e6)
            sim.fault('clock-jump')
        elif k == 5:
            sim.advance(0.25)
        else:
            sim.advance(0.001 * k)
        reads.append(sim.now)
        return sim.now
    sim.state['clock'] = clock
    calls = []
    base = par.PerformanceMonitor
    default_exit = sim.chance(20)
    exit_value = sim.pick(None, None, True, 'saved', 1)

    class Mon(base):
        def on_exit(self):
            calls.append((self, self.mem, self.duration, self.start_time, self.exc))
            if default_exit:
                base.on_exit(self)
            return exit_value

    def make():
        if sim.draw(3) == 0:
            pids = None
            want = [10]
        else:
            # duplicates and order are the caller's business
            want = sim.shuffled(range(10, 10 + npr))[:1 + sim.draw(npr)]
            pids = list(want)
            if sim.chance(15):
                pids.insert(sim.draw(len(pids) + 1), 0 if sim.draw(2) else None)
        ok, mon = sim.attempt(Mon, pids)
        if not ok:
            if all(procs[p].alive for p in want):
                sim.fail('monitor-failed', core.exc_text(mon))
            return None, None
        mon._sim_want = want
        mon._sim_history = []   # pids that could not be measured before
        return mon, want

    def use(mon, depth):
        want = mon._sim_want
        err = None
        k = sim.draw(5)
        if k == 3:
            err = BlockError('block')
        elif k == 4:
            err = BlockFatal('block')
        before = dict((p, len(procs[p].readings)) for p in procs)
        n0 = len(reads)
        ncalls = len(calls)
        got = None
        entered = [False]
        marks = {}
        try:
            with mon as m:
                entered[0] = True
                marks['entry'] = reads[n0:]
                marks['start'] = dict((p, list(procs[p].readings[before[p]:])) for p in procs)
                sim.check(m is mon, 'wrong-enter', '')
                for p in sorted(procs):
                    procs[p].disturb()
                if depth < 2 and sim.chance(30):
                    inner, _ = make()
                    if inner is not None:
                        use(inner, depth + 1)
                        sim.probe('nested monitor')
                mid = dict((p, len(procs[p].readings)) for p in procs)
                n1 = len(reads)
                ncalls = len(calls)
                if err is not None:
                    raise err
        except (core.Violation, core.HarnessError, core.SimHang):
            raise
        except BaseException as e:
            got = e
        if not entered[0]:
            sim.fail('monitor-failed', 'entering raised %s' % core.exc_text(got))
        if got is not err:
            sim.fail('outcome-changed', 'the block raised %s, the caller saw %s' % (
                core.exc_text(err) if err else None, core.exc_text(got) if got else None))
        sim.same(len(calls), ncalls + 1, 'exit-callback', 'number of calls')
        m, mem, duration, start_time, exc = calls[-1]
        sim.check(m is mon, 'exit-callback', 'of another monitor')
        sim.check(exc is err and mon.exc is err, 'wrong-exc', 'got %s', core.text(exc))
        sim.check(mon.mem == mem and mon.duration == duration and mon.start_time == start_time,
                  'changed-after-exit', '')
        # memory
        start = marks['start']
        stop = dict((p, list(procs[p].readings[mid[p]:])) for p in procs)
        sim.check(isinstance(mem, list), 'wrong-mem', 'mem is %s', core.text(mem))
        required, allowed = [], []
        for p in want:
            s = [x for x in start[p] if x is not None]
            e = [x for x in stop[p] if x is not None]
            if s and e:
                delta = e[-1] - s[-1]
                allowed.append((p, delta))
                if p not in mon._sim_history:
                    required.append((p, delta))
            elif not s and not e and not start[p] and not stop[p] and p not in mon._sim_history:
                sim.fail('not-measured', 'process %s was not measured at all' % p)
            elif (s and not stop[p]) or (e and not start[p]):
                sim.fail('not-measured', 'process %s was measured only once' % p)
            if None in start[p] or None in stop[p]:
                mon._sim_history.append(p)
        # required must be a subsequence of mem, mem one of allowed
        deltas = [d for _p, d in allowed]
        it = iter(deltas)
        if not all(any(x == d for d in it) for x in mem) or len(mem) < len(required):
            sim.fail('wrong-mem', 'mem=%s, measured deltas are %s' % (mem, allowed))
        it = iter(mem)
        if not all(any(x == d for d in it) for _p, x in required):
            sim.fail('wrong-mem', 'mem=%s, required deltas are %s' % (mem, required))
        # time
        entry, leave = marks['entry'], reads[n1:]
        good = [(a, z) for a in entry for z in leave
                if abs((z - a) - duration) < 1e-9 and
                start_time == datetime.datetime.fromtimestamp(a)]
        if not good:
            sim.fail('wrong-time', 'start_time=%s duration=%r, clock at entry %r, at exit %r' % (
                start_time, duration, entry, leave))
        sim.log('left', mem, repr(duration), core.exc_text(err) if err else None)
        sim.seen('mon', len(want), len(mem), err is None, depth, tuple(sorted(mon._sim_history)))

    mon = None
    for i in range(1 + sim.draw(4)):
        if mon is None or sim.draw(2):
            mon, _ = make()
        if mon is not None:
            if i:
                sim.nontrivial = True
            use(mon, 0)
        for p in sorted(procs):
            procs[p].disturb()


# ------------------------------------------------------------------ C06

class IdModel(object):
    """id(): dead objects' identities may be given to new objects"""
    def __init__(self, sim):
        self.sim = sim
        self.known = []      # [id, weakref]
        self.next = 1000
        self.reused = 0
        self.gcs = 0

    def __call__(self, obj):
        from java.lang import System
        for ident, ref in self.known:
            if ref() is obj:
                return ident
        sim = self.sim
        try:
            ref = weakref.ref(obj)
        except TypeError:
            self.next += 16
            return self.next
        if self.known and self.gcs < 6 and sim.chance(60):
            self.gcs += 1
            gc.collect() if False else System.gc()
            dead = [k for k in self.known if k[1]() is None]
            if dead:
                k = dead[-1]
                k[1] = ref
                self.reused += 1
                sim.fault('id-reuse')
                return k[0]
        self.next += 16
        self.known.append([self.next, ref])
        return self.next


def values(sim, depth=0):
    k = sim.draw(9)
    if k == 0:
        return sim.draw(1000)
    elif k == 1:
        return 'text%d' % sim.draw(10)
    elif k == 2:
        return u'caf\xe9%d' % sim.draw(3)
    elif k == 3:
        return [sim.draw(9) for _ in range(sim.draw(4))]
    elif k == 4:
        return FALSY[sim.draw(len(FALSY))]
    elif k == 5:
        return {'k': sim.draw(4)}
    elif k == 6:
        return 'x' * sim.pick(10, 2000)
    elif k == 7 and depth < 2:
        return tuple(values(sim, depth + 1) for _ in range(sim.draw(3)))
    return 1.5


PLAIN = [0, 1, True, False, 1.0, 0.0, -0.0, 1L, 0L, '', u'', '1', u'1', None, (), 2 ** 70, 1 + 0j,
         'packet', float('inf')]


class Raw(object):
    """Marks an expected plain value"""
    def __init__(self, value):
        self.value = value


def give_back(*args):
    return list(args)


def scribble(a, *rest):
    a.value = 'scribbled'
    return a


def raise_it(cls, msg):
    raising_helper(cls, msg)


def c06(sim):
    par = setup(sim)
    k = sim.draw(4)
    if k == 3:
        return wrapper_pickling(sim, par)
    n = sim.draw(7)
    packed = {}
    if k in (0, 1):
        # a list, possibly with repeated objects and ready packets
        objs, expected = [], []
        for i in range(n):
            c = sim.draw(6)
            if c == 1 and objs:
                j = sim.draw(len(objs))
                objs.append(objs[j])
                expected.append(expected[j])
                sim.nontrivial = True
            elif c == 2:
                v = values(sim)
                p = par.Pickled(Item(v))
                if sim.chance(20):
                    v = p
                    p = par.Pickled(p)
                    sim.probe('packet of a packet')
                objs.append(p)
                expected.append(v)
                packed[len(objs) - 1] = p
            elif c == 4:
                # a plain value
                v = PLAIN[sim.draw(len(PLAIN))]
                objs.append(v)
                expected.append(Raw(v))
            elif c == 5:
                v = values(sim)
                objs.append(Lookalike(v))
                expected.append(v)
            else:
                v = values(sim)
                objs.append(Item(cPickle.loads(cPickle.dumps(v, 2))))
                expected.append(v)
        src = sim.pick(list, tuple, iter)(objs)
        out = sim.must('pickling-failed', par.pickle_sequence, src)
        sim.same(len(out), len(objs), 'wrong-length', 'packets')
        mutated = bool(sim.draw(2))
        if mutated:
            for o in objs:
                if isinstance(o, (Item, Lookalike)):
                    o.value = 'mutated later'
        for i, (o, p, v) in enumerate(zip(objs, out, expected)):
            sim.check(isinstance(p, par.Pickled), 'not-a-packet', 'item %d: %s', i, core.text(p))
            got = p.unpickle()
            if isinstance(v, Raw):
                sim.check(repr(got) == repr(v.value) and type(got) is type(v.value),
                          'wrong-packet', 'item %d: %s instead of %s', i, core.text(got),
                          core.text(v.value))
                # equal values may or may not be the same object
                for j in range(i):
                    if out[j] is p:
                        sim.check(isinstance(expected[j], Raw) and
                                  repr(expected[j].value) == repr(v.value), 'wrong-sharing',
                                  'items %d and %d share a packet', j, i)
                continue
            if isinstance(v, par.Pickled):  # a packet of a packet
                sim.check(p is o, 'packet-not-kept', 'item %d', i)
                sim.check(isinstance(got, par.Pickled) and got.pik == v.pik, 'wrong-packet',
                          'item %d: %s instead of a packet', i, core.text(got))
                continue
            sim.check(type(got) is (Lookalike if isinstance(o, Lookalike) else Item) and got.value == v and type(got.value) is type(v),
                      'wrong-packet', 'item %d: %s instead of %s', i, core.text(got), core.text(v))
            if isinstance(o, par.Pickled):
                sim.check(p is o, 'packet-not-kept', 'item %d', i)
            for j in range(i):
                same = objs[j] is o
                if same != (out[j] is p):
                    sim.fail('wrong-sharing', 'items %d and %d are %s but their packets are %s' % (
                        j, i, 'the same' if same else 'distinct',
                        'shared' if out[j] is p else 'distinct'))
            # the packet can be opened again and gives a fresh object
            got2 = p.unpickle()
            sim.check(got2 is not got and got2.value == got.value, 'wrong-packet', 'second unpickling of %d', i)
            sim.same(len(p), len(p.pik), 'wrong-length', 'len of packet')
        def shown(v):
            return 'packet' if isinstance(v, par.Pickled) else core.text(
                v.value if isinstance(v, Raw) else v, 30)
        sim.log('list', map(shown, expected), mutated)
        sim.seen('list', n, mutated, len(set(map(shown, expected))))
    else:
        # an iterator of temporaries: nobody else keeps the items alive
        model = None
        if sim.draw(3):
            model = sim.state['id_model'] = IdModel(sim)
            n = min(n, 5)
        n += 1
        vals = [values(sim) for _ in range(n)]
        keep = []

        def gen():
            for i in range(n):
                it = Item(vals[i])
                if sim.draw(4) == 1:
                    keep.append(it)
                yield it
                it = None
        out = sim.must('pickling-failed', par.pickle_sequence, gen())
        sim.state.pop('id_model', None)
        sim.same(len(out), n, 'wrong-length', 'packets')
        for i, (p, v) in enumerate(zip(out, vals)):
            got = p.unpickle()
            sim.check(got.value == v and type(got.value) is type(v), 'wrong-packet',
                      'item %d of the iterator: %s instead of %s', i, core.text(got), core.text(v))
            for j in range(i):
                sim.check(out[j] is not p, 'wrong-sharing', 'distinct items %d and %d share a packet', j, i)
        sim.log('iterator', [core.text(v, 30) for v in vals], sorted(
            i for i, v in enumerate(vals) if any(k.value is v for k in keep)))
        if model is not None:
            if model.gcs:
                sim.fault('garbage-collection')
            sim.seen('iter', n, model.reused)


class Broken(object):
    """Pickles, and fails when it is unpickled"""
    def __reduce__(self):
        return fail_to_load, ('cannot be loaded',)


def fail_to_load(msg):
    raise EOFError(msg)


class Unsendable(object):
    def __reduce__(self):
        raise TypeError('cannot be sent')


def give_unsendable(*args):
    return Unsendable()


def wrapper_pickling(sim, par):
    """safely_call(pickle=True) agrees with safely_call"""
    for _ in range(1 + sim.draw(3)):
        args = [Item(values(sim)) for _ in range(sim.draw(4))]
        func = give_back
        c = sim.draw(6)
        fail = None
        if c == 1 and args:
            func = scribble
        elif c == 2:
            while fail is None or fail[0] in BASE:
                fail = FAILURES[sim.draw(len(FAILURES))]
            msg = fail[1] % 'T0T' if '%s' in fail[1] else fail[1]
            args = [fail[0], msg]
            func = raise_it
            sim.fault('task-raises')
        elif c in (3, 4):
            # an argument or a result that does not survive the transport
            if c == 3:
                args.insert(sim.draw(len(args) + 1), Broken())
                sim.fault('argument-cannot-be-loaded')
            else:
                func = give_unsendable
                sim.fault('unpicklable-result')
            packets = sim.must('pickling-failed', par.pickle_sequence, args)
            ok, res = sim.attempt(par.safely_call, func, packets, True)
            if not ok:
                sim.fail('wrapper-raised', core.exc_text(res))
            sim.check(isinstance(res, par.Pickled), 'not-a-packet', 'got %s', core.text(res))
            got = res.unpickle()
            sim.check(isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], basestring)
                      and got[1] is not None, 'wrong-pair', 'got %s', core.text(got))
            sim.check(c == 4 or (got[1] is EOFError and 'cannot be loaded' in got[0]),
                      'wrong-pair', 'got %s', core.text(got))
            sim.log('transport', c, core.text(got[1]))
            continue
        plain = cPickle.loads(cPickle.dumps(args, 2))
        packets = sim.must('pickling-failed', par.pickle_sequence, args)
        before = [p.pik for p in packets]
        keep = cPickle.dumps(args, 2)
        ok1, res = sim.attempt(par.safely_call, func, packets, True)
        ok2, want = sim.attempt(par.safely_call, func, plain)
        if not ok1 or not ok2:
            sim.fail('wrapper-raised', '%s' % core.exc_text(res if not ok1 else want))
        sim.check(isinstance(res, par.Pickled), 'not-a-packet', 'got %s', core.text(res))
        got = res.unpickle()
        sim.check(isinstance(got, tuple) and len(got) == 2, 'wrong-pair', 'got %s', core.text(got))
        sim.check(got[1] is want[1], 'wrong-pair', 'classes %s and %s', core.text(got[1]), core.text(want[1]))
        if fail is None:
            sim.check(got[0] == want[0], 'wrong-pair', 'results %s and %s', core.text(got[0]), core.text(want[0]))
        else:
            sim.check(isinstance(got[0], basestring) and 'raising_end' in got[0], 'wrong-pair',
                      'text %s', core.text(got[0]))
        sim.check([p.pik for p in packets] == before and cPickle.dumps(args, 2) == keep,
                  'argument-changed', '')
        sim.nontrivial = True
        sim.log('wrap', c, core.text(want, 80))
        sim.seen('wrap', c, len(args), core.text(want[1]))


# ------------------------------------------------------------------ C07

def c07(sim):
    par = setup(sim)
    samples = []
    level = [40.0]

    def memory():
        k = sim.draw(6)
        if k:
            level[0] = sim.pick(40.0, 79.9, 80.0, 80.1, 81.0, 95.5, 100.0, 0.0, 85)
        samples.append(level[0])
        sim.log('mem', level[0])
        if level[0] > 80:
            sim.fault('memory-pressure')
        return level[0]
    sim.state['memory'] = memory
    warnings = []
    infos = []

    def hook(lvl, msg):
        if lvl == 'WARNING':
            warnings.append(msg)
        else:
            infos.append(msg)
    sim.state['log_hook'] = hook

    def expect(limit, lo, what):
        want = [p for p in samples[lo:] if p > limit]
        got = warnings[marks[1]:]
        if len(want) != len(got) or not all(
                re.search(r'(?<!\d)%d(?!\d)' % p, w) for p, w in zip(want, got)):
            sim.fail('wrong-warnings', '%s: samples %s, limit %s, warnings %s' % (
                what, samples[lo:], limit, got))
    if sim.draw(3) == 0:
        for _ in range(1 + sim.draw(6)):
            marks = len(samples), len(warnings)
            c = sim.draw(4)
            if c == 0:
                sim.must('guard-failed', par.check_mem_usage)
                limit = 80
            else:
                limit = sim.pick(0, 50, 79, 80, 81, 99, 100)
                if c == 1:
                    sim.must('guard-failed', par.check_mem_usage, limit)
                else:
                    sim.must('guard-failed', par.check_mem_usage, mem_percent=limit)
            sim.check(len(samples) > marks[0], 'not-sampled', 'no sample taken')
            expect(limit, marks[0], 'direct call')
            sim.seen('direct', limit, samples[-1])
        sim.nontrivial = True
        return
    seq = sim.chance(25)
    if seq:
        os.environ['OQ_NO_DISTRIBUTE'] = 'yes'
    for _ in range(1 + sim.draw(2)):
        n = sim.draw(8)
        b = new_batch(sim, n)
        marks = len(samples), len(warnings)
        rep = Reports(sim, b, b.func.__name__)
        tm = manager(sim, par, b, rep)
        per_task = []
        for k in range(n):
            s0 = len(samples)
            ok, res = submit(sim, tm, b, k, k + 1)
            sim.check(ok, 'batch-failed', 'submit: %s', res)
            sim.check(len(samples) > s0, 'not-sampled', 'no sample when task %d was submitted', k)
        at = []
        b.on_agg = lambda i: at.append(len(samples))
        s1 = len(samples)
        ok, res = aggregate(sim, tm, b)
        if not ok:
            sim.fail('batch-failed', core.exc_text(res))
        if not seq:
            prev = s1
            for i, s in enumerate(at):
                sim.check(s > prev, 'not-sampled', 'no sample before result %d was aggregated', i)
                prev = s
        b.check_complete(res)
        rep.check(True)
        expect(80, marks[0], 'batch of %d' % n)
        note_order(sim, b)
        sim.seen('press', n, tuple(s > 80 for s in samples[marks[0]:][:10]))


WORKLOADS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07)
