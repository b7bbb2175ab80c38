# Simulated concurrent.futures.  A process pool is a set of worker slots; the
# tape decides when work starts, how long it takes (simulated time), which
# running task finishes next, and whether a worker dies.  Tasks get pickled
# copies of their arguments and return pickled copies of their results.
import sys
import cPickle
import core

FIRST_COMPLETED = 'FIRST_COMPLETED'
FIRST_EXCEPTION = 'FIRST_EXCEPTION'
ALL_COMPLETED = 'ALL_COMPLETED'


class Error(Exception):
    pass


class CancelledError(Error):
    pass


class TimeoutError(Error):
    pass


class BrokenProcessPool(RuntimeError):
    pass


class Future(object):
    def __init__(self):
        sim = core.current()
        self._hash = sim.next_hash() if sim is not None else 1
        self._state = 'PENDING'
        self._result = None
        self._exception = None
        self._callbacks = []
        self._pool = None
        self._tag = None

    def __hash__(self):
        return self._hash

    def __repr__(self):
        return '<Future state=%s>' % self._state

    def cancel(self):
        if self._state == 'PENDING':
            self._state = 'CANCELLED'
            if self._pool is not None and self in self._pool._queue_futures():
                self._pool._drop(self)
            self._call()
            return True
        return self._state == 'CANCELLED'

    def cancelled(self):
        return self._state == 'CANCELLED'

    def running(self):
        return self._state == 'RUNNING'

    def done(self):
        return self._state in ('FINISHED', 'CANCELLED')

    def set_running_or_notify_cancel(self):
        if self._state == 'CANCELLED':
            return False
        self._state = 'RUNNING'
        return True

    def set_result(self, res):
        self._result = res
        self._state = 'FINISHED'
        self._call()

    def set_exception(self, exc):
        self._exception = exc
        self._state = 'FINISHED'
        self._call()

    set_exception_info = lambda self, exc, tb: self.set_exception(exc)

    def _call(self):
        for cb in self._callbacks:
            cb(self)
        self._callbacks = []

    def add_done_callback(self, cb):
        if self.done():
            cb(self)
        else:
            self._callbacks.append(cb)

    def _wait(self, timeout):
        _block([self], lambda: self.done(), timeout)

    def result(self, timeout=None):
        self._wait(timeout)
        if self._state == 'CANCELLED':
            raise CancelledError()
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self, timeout=None):
        self._wait(timeout)
        if self._state == 'CANCELLED':
            raise CancelledError()
        return self._exception


def _block(futures, cond, timeout=None):
    """The calling process waits until cond() holds"""
    sim = core.current()
    if cond():
        return
    hook = sim.state.get('block_hook')
    start = sim.now
    while not cond():
        if timeout is not None and sim.now - start >= timeout:
            raise TimeoutError()
        if hook is not None:
            hook(futures)
        pools = []
        for f in futures:
            if f._pool is not None and f._pool not in pools and not f.done():
                pools.append(f._pool)
        if not any(p._step() for p in pools):
            sim.fail('deadlock', 'waiting for a future that nothing will ever complete')


class Executor(object):
    isolated = True

    def __init__(self, max_workers=None, *args, **kw):
        self._max = max_workers
        self._queue = []      # (future, payload)
        self._running = []
        self._broken = None
        self._shutdown = False
        self._conf = None
        self._done = 0

    def __hash__(self):
        return 77

    def _workers(self):
        if self._conf is None:
            sim = core.current()
            conf = sim.state.get('pool_conf') or {}
            self._conf = dict(conf)
            self._conf.setdefault('workers', 1 + sim.draw(4))
            if self._max:
                self._conf['workers'] = self._max
            sim.log('pool', self._conf['workers'])
        return self._conf

    def _queue_futures(self):
        return [q[0] for q in self._queue]

    def _drop(self, fut):
        self._queue = [q for q in self._queue if q[0] is not fut]

    def submit(*args, **kw):
        self, fn, args = args[0], args[1], args[2:]
        sim = core.current()
        self._workers()
        if self._broken:
            raise BrokenProcessPool('A child process terminated abruptly, '
                                    'the process pool is not usable anymore')
        if self._shutdown:
            raise RuntimeError('cannot schedule new futures after shutdown')
        limit = self._conf.get('refuse_after')
        if limit is not None and sim.state.get('submitted', 0) >= limit:
            sim.fault('pool-refuses')
            name = self._conf['refuse_with']
            if name == 'BrokenProcessPool':
                raise BrokenProcessPool('the pool is not usable anymore')
            raise {'RuntimeError': RuntimeError, 'OSError': OSError, 'IOError': IOError,
                   'MemoryError': MemoryError}[name]('cannot schedule new futures')
        fut = Future()
        fut._pool = self
        n = sim.state['submitted'] = sim.state.get('submitted', 0) + 1
        fut._tag = n
        hook = sim.state.get('submit_hook')
        if hook is not None:
            hook(fut, fn, args)
        call = (fn, args, kw)
        payload = self._dumps(call)
        self._queue.append((fut, payload))
        sim.log('submit', n)
        # the pool works while the caller goes on submitting
        if self._conf.get('eager', True):
            for _ in range(sim.draw(4)):
                if not self._step():
                    break
        return fut

    def _dumps(self, obj):
        if self.isolated:
            return cPickle.dumps(obj, 2)
        return obj

    def _loads(self, obj):
        if self.isolated:
            return cPickle.loads(obj)
        return obj

    def map(self, fn, *iterables, **kw):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in futs:
                yield f.result(kw.get('timeout'))
        return gen()

    def shutdown(self, wait=True):
        self._shutdown = True
        if wait:
            while self._step():
                pass

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        self.shutdown(wait=True)
        return False

    # ---- the pool's own behaviour, driven by the tape
    def _fill(self):
        sim = core.current()
        conf = self._workers()
        while self._queue and len(self._running) < conf['workers']:
            fut, payload = self._queue.pop(0)
            if fut._state == 'CANCELLED':
                continue
            fut._state = 'RUNNING'
            busy = set(r[2] for r in self._running)
            worker = [w for w in range(conf['workers']) if w not in busy][0]
            self._running.append((fut, payload, worker))
            sim.log('start', fut._tag, worker)

    def _step(self):
        """One event of the pool: something starts or finishes"""
        sim = core.current()
        if self._broken:
            return False
        self._fill()
        if not self._running:
            return False
        conf = self._conf
        kill = conf.get('crash_after')
        if kill is not None and self._done >= kill:
            self._crash()
            return True
        i = sim.draw(len(self._running))
        fut, payload, worker = self._running.pop(i)
        sim.advance((0.001, 0.0, 0.5, 60.0)[sim.draw(4)])
        self._execute(fut, payload, worker)
        self._done += 1
        hook = sim.state.get('pool_hook')
        if hook is not None:
            hook()
        return True

    def _crash(self):
        sim = core.current()
        sim.fault('worker-crash')
        sim.log('CRASH')
        self._broken = True
        lost = [r[0] for r in self._running] + self._queue_futures()
        self._running = []
        self._queue = []
        for f in lost:
            if not f.done():
                exc = BrokenProcessPool(
                    'A process in the process pool was terminated abruptly '
                    'while the future was running or pending.')
                make = self._conf.get('crash_with')
                f.set_exception(exc if make is None else make(exc))

    def _execute(self, fut, payload, worker):
        sim = core.current()
        pid, sim.state['pid'] = sim.state.get('pid', 4242), 5000 + worker
        depth = sim.state.get('in_worker', 0)
        sim.state['in_worker'] = depth + 1
        res = exc = None
        try:
            fn, args, kw = self._loads(payload)
            try:
                res = fn(*args, **kw)
            except (core.Violation, core.HarnessError, core.SimKilled, core.SimHang):
                raise
            except BaseException as e:
                exc = e
            else:
                try:
                    res = self._loads(self._dumps(res))
                except Exception as e:
                    exc = e
        finally:
            sim.state['pid'] = pid
            sim.state['in_worker'] = depth
        sim.log('finish', fut._tag, worker)
        if exc is not None:
            fut.set_exception(exc)
        else:
            fut.set_result(res)


class ProcessPoolExecutor(Executor):
    isolated = True


class ThreadPoolExecutor(Executor):
    isolated = False


def as_completed(fs, timeout=None):
    sim = core.current()
    pending = []
    for f in fs:
        if f not in pending:
            pending.append(f)
    start = sim.now
    while pending:
        ready = [f for f in pending if f.done()]
        if not ready:
            left = None if timeout is None else timeout - (sim.now - start)
            _block(pending, lambda: any(f.done() for f in pending), left)
            ready = [f for f in pending if f.done()]
        f = ready[sim.draw(len(ready))]
        pending.remove(f)
        yield f
        # while the consumer works the pool goes on
        pools = []
        for p in pending:
            if p._pool is not None and p._pool not in pools:
                pools.append(p._pool)
        for p in pools:
            for _ in range(sim.draw(3)):
                if not p._step():
                    break


class DoneAndNotDone(tuple):
    done = property(lambda self: self[0])
    not_done = property(lambda self: self[1])


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    fs = set(fs)
    order = sorted(fs, key=lambda f: f._tag)

    def cond():
        done = [f for f in order if f.done()]
        if len(done) == len(order):
            return True
        if return_when == FIRST_COMPLETED:
            return bool(done)
        if return_when == FIRST_EXCEPTION:
            return any(f._exception is not None for f in done)
        return False
    try:
        _block(order, cond, timeout)
    except TimeoutError:
        pass
    done = set(f for f in order if f.done())
    return DoneAndNotDone((done, fs - done))
