# Planted bugs in parallel.py and general.py
P = 'parallel'

B('C01-none-result', 'C01', P, (
    "            res = agg(acc, val)\n",
    "            # tasks working by side effect have nothing to aggregate\n"
    "            res = acc if val is None else agg(acc, val)\n"),
  'a task returning None together with an aggregation function that counts results',
  'results that are None are not passed to the aggregation function', '''
from openquake.commonlib import parallel
import demo_tasks as T
seen = []
def agg(acc, val):
    seen.append(val)
    return acc + 1
same(parallel.map_reduce(T.ident, [(1,), (None,), (0,)], agg, 0), 3, 'folds')
''')

B('C01-same-args', 'C01', P, [(
    "        self.results = []\n        self.sent = 0\n",
    "        self.results = []\n        self._last = (None, None)\n        self.sent = 0\n"), (
    "            res = executor.submit(safely_call, self.oqtask, args)\n",
    "            # do not compute the same thing twice in a row\n"
    "            if self._last[0] != args or not self.results:\n"
    "                self._last = args, executor.submit(\n"
    "                    safely_call, self.oqtask, args)\n"
    "            res = self._last[1]\n")],
  'two consecutive argument tuples of a batch that are equal, in pool mode',
  'the result of repeated argument tuples is aggregated only once', '''
from openquake.commonlib import parallel
import operator
import demo_tasks as T
same(parallel.map_reduce(T.ident, [(5,), (5,), (7,), (5,)], operator.add, 0), 22, 'sum')
''')

B('C01-submission-order', 'C01', P, (
    "        for future in as_completed(self.results):\n",
    "        # keep the order of submission, so that the results are reproducible\n"
    "        for future in self.results:\n"),
  'a completion order different from the submission order while the first task is still running',
  'aggregation waits for an unfinished task while finished results exist', '''
from openquake.commonlib import parallel
import demo_tasks as T
Pool.order = staticmethod(lambda fs: fs[::-1])
out = parallel.map_reduce(T.ident, [(i,) for i in range(5)], lambda a, v: a + [v], [])
same(out, [4, 3, 2, 1, 0], 'fold order with reversed completion')
''')

B('C01-manager-reuse', 'C01', P, (
    "        self.results = []\n        return agg_result\n",
    "        if not no_distribute():  # the futures keep the results in memory\n"
    "            self.results = []\n        return agg_result\n"),
  'a task manager reused for a second batch with OQ_NO_DISTRIBUTE set',
  'the results of the previous batch are aggregated again', '''
from openquake.commonlib import parallel
import operator
import demo_tasks as T
for env in ('0', '1'):
    os.environ['OQ_NO_DISTRIBUTE'] = env
    tm = parallel.TaskManager(T.ident, lambda *a: None)
    tm.submit(1)
    tm.submit(2)
    same(tm.aggregate_results(operator.add, 0), 3, 'first batch')
    tm.submit(10)
    same(tm.aggregate_results(operator.add, 0), 10, 'second batch')
''')

B('C01-acc-mutable', 'C01', P, (
    "        for future in as_completed(self.results):\n"
    "            check_mem_usage()  # log a warning if too much memory is used\n"
    "            acc = agg(acc, future.result())\n",
    "        for future in as_completed(self.results):\n"
    "            check_mem_usage()  # log a warning if too much memory is used\n"
    "            # in-place aggregation functions may return nothing\n"
    "            acc = agg(acc, future.result()) or acc\n"),
  'an aggregation function returning a falsy accumulator (0, an empty list) in pool mode',
  'the accumulator returned by the previous call is lost when it is falsy', '''
from openquake.commonlib import parallel
import demo_tasks as T
# the balance goes through zero
same(parallel.map_reduce(T.ident, [(5,), (-5,), (3,)], lambda a, v: a + v, 0), 3, 'sum')
''')

B('C02-interrupt-in-task', 'C02', P, (
    "    except:\n        etype, exc, tb = sys.exc_info()\n",
    "    except Exception:\n        etype, exc, tb = sys.exc_info()\n"),
  'a task raising KeyboardInterrupt or SystemExit (not an Exception subclass)',
  'the wrapper raises in the worker instead of returning the pair', '''
from openquake.commonlib import parallel
import demo_tasks as T
try:
    res, exc = parallel.safely_call(T.fail, (KeyboardInterrupt, 'stop'))
except BaseException as e:
    ok(False, 'safely_call raised', repr(e))
same(exc, KeyboardInterrupt)
ok('stop' in res and 'KeyboardInterrupt' in res, res)
''')

B('C02-exit-is-ok', 'C02', P, (
    "            if exc:\n                raise RuntimeError(val)\n",
    "            if exc and issubclass(exc, StandardError):\n"
    "                raise RuntimeError(val)\n"),
  'a task raising an exception that does not derive from StandardError',
  'the failure of the task is aggregated as if the traceback string were a result', '''
from openquake.commonlib import parallel
import demo_tasks as T
for exc in (ValueError, SystemExit, KeyboardInterrupt, T.Custom):
    err = raises(RuntimeError, parallel.map_reduce, T.fail_or, [(None, 1), (exc, 'msg')],
                 lambda a, v: a + [v], [])
    ok(exc.__name__ in str(err) and 'msg' in str(err), err)
''')

B('C02-broken-pool', 'C02', P, (
    "            acc = agg(acc, future.result())\n",
    "            try:\n"
    "                res = future.result()\n"
    "            except EnvironmentError as exc:  # the worker died\n"
    "                logging.error('Lost a task: %s', exc)\n"
    "                continue\n"
    "            acc = agg(acc, res)\n"),
  'a worker pool failing with an OSError/IOError while a result is fetched',
  'a lost task is logged and a partial aggregate is returned', '''
from openquake.commonlib import parallel
import demo_tasks as T
tm = parallel.TaskManager(T.ident, lambda *a: None)
for i in range(3):
    tm.submit(i)
tm.results[1].error = OSError(12, 'Cannot allocate memory')
raises(Exception, tm.aggregate_results, lambda a, v: a + [v], [])
''')

B('C02-short-traceback', 'C02', P, (
    "        tb_str = ''.join(traceback.format_tb(tb))\n",
    "        tb_str = ''.join(traceback.format_tb(tb, 5))\n"),
  'a task failing more than five calls deep',
  'the remote traceback does not reach the function that raised', '''
from openquake.commonlib import parallel
import demo_tasks as T
err = raises(RuntimeError, parallel.map_reduce, T.deep, [(9,)], lambda a, v: a, 0)
ok('the_raising_function' in str(err), err)
''')

B('C02-agg-stopiteration', 'C02', P, (
    "            agg_result = self.aggregate_result_set(agg_and_percent, acc)\n",
    "            try:\n"
    "                agg_result = self.aggregate_result_set(agg_and_percent, acc)\n"
    "            except StopIteration:  # the progress generator is exhausted\n"
    "                agg_result = acc\n"),
  'an aggregation function that lets a StopIteration escape, in pool mode',
  'a failing aggregation function makes the batch return the initial accumulator', '''
from openquake.commonlib import parallel
import demo_tasks as T
def agg(acc, val):
    return acc + iter([]).next()
raises(Exception, parallel.map_reduce, T.ident, [(1,), (2,)], agg, 0)
''')

B('C03-env-at-import', 'C03', P, (
    "    nd = os.environ.get('OQ_NO_DISTRIBUTE', '').lower()\n    return nd in ('1', 'true', 'yes')\n",
    "    if not _no_distribute:\n"
    "        nd = os.environ.get('OQ_NO_DISTRIBUTE', '').lower()\n"
    "        _no_distribute.append(nd in ('1', 'true', 'yes'))\n"
    "    return _no_distribute[0]\n\n\n"
    "_no_distribute = []  # cache\n"),
  'changing the environment variable between two batches of one process',
  'the mode of the first batch is kept for the later ones', '''
from openquake.commonlib import parallel
import demo_tasks as T
for env in ('', '1', 'no', 'YES'):
    os.environ['OQ_NO_DISTRIBUTE'] = env
    before = Pool.submitted
    out = parallel.map_reduce(T.inside, [(1,), (2,)], lambda a, v: a + [v], [])
    inproc = env in ('1', 'YES')
    same(Pool.submitted - before, 0 if inproc else 2, 'submissions with %r' % env)
    same(out, [False, False] if inproc else [True, True], 'place of execution with %r' % env)
''')

B('C03-letter-case', 'C03', P, (
    "    nd = os.environ.get('OQ_NO_DISTRIBUTE', '').lower()\n    return nd in ('1', 'true', 'yes')\n",
    "    nd = os.environ.get('OQ_NO_DISTRIBUTE', '')\n"
    "    return nd in ('1', 'true', 'True', 'TRUE', 'yes', 'YES')\n"),
  'OQ_NO_DISTRIBUTE set to a mixed case spelling like Yes or tRUE',
  'some spellings of the variable no longer switch the distribution off', """
from openquake.commonlib import parallel
import demo_tasks as T
for env in ('Yes', 'tRue', 'yEs', '1', 'true'):
    os.environ['OQ_NO_DISTRIBUTE'] = env
    same(parallel.map_reduce(T.inside, [(1,)], lambda a, v: a + [v], []), [False], env)
""")

B('C03-memory-in-process', 'C03', P, [(
    "    if used_mem_percent > mem_percent:\n"
    "        logging.warn('Using over %d%% of the memory!', used_mem_percent)\n",
    "    if used_mem_percent > mem_percent:\n"
    "        logging.warn('Using over %d%% of the memory!', used_mem_percent)\n"
    "    return used_mem_percent > 95  # no memory for another process\n"), (
    "        check_mem_usage()  # log a warning if too much memory is used\n"
    "        if no_distribute():\n",
    "        no_memory = check_mem_usage()\n"
    "        if no_distribute() or no_memory:\n"), (
    "        for future in as_completed(self.results):\n",
    "        for done in self.results:\n"
    "            if isinstance(done, tuple):  # was executed in process\n"
    "                acc = agg(acc, done)\n"
    "        for future in as_completed(\n"
    "                [res for res in self.results if not isinstance(res, tuple)]):\n")],
  'a memory sample above 95% at the moment a task is submitted, in pool mode',
  'tasks run in the calling process, on the original arguments, under memory pressure', """
from openquake.commonlib import parallel
import demo_tasks as T
Logs()
psutil.samples[:] = [10.0, 97.0, 50.0]
out = parallel.map_reduce(T.inside, [(1,), (2,), (3,)], lambda a, v: a + [v], [])
same(out, [True] * 3, 'ran in a worker')
""")

B('C03-mode-of-manager', 'C03', P, [(
    "        self.results = []\n        self.sent = 0\n",
    "        self.results = []\n        self.nd = no_distribute()\n        self.sent = 0\n"), (
    "        if no_distribute():\n            res = safely_call(self.oqtask, args)\n",
    "        if self.nd:\n            res = safely_call(self.oqtask, args)\n"), (
    "        if no_distribute():\n            agg_result = reduce",
    "        if self.nd:\n            agg_result = reduce")],
  'a task manager reused for a second batch after the variable was changed',
  'the variable is consulted once per manager instead of once per batch', """
from openquake.commonlib import parallel
import demo_tasks as T
tm = parallel.TaskManager(T.inside, lambda *a: None)
for env, where in [('', True), ('1', False), ('0', True)]:
    os.environ['OQ_NO_DISTRIBUTE'] = env
    tm.submit(1)
    same(tm.aggregate_results(lambda a, v: a + [v], []), [where], env)
""")

B('C02-starmap', 'C02', P, (
    "    tm = TaskManager(function, logging.info, name)\n"
    "    for args in function_args:\n",
    "    if no_distribute():  # do it sequentially\n"
    "        return reduce(agg, (function(*args) for args in function_args), acc)\n"
    "    tm = TaskManager(function, logging.info, name)\n"
    "    for args in function_args:\n"),
  'a failing task with OQ_NO_DISTRIBUTE set',
  'the original exception surfaces instead of the RuntimeError with the traceback text', """
from openquake.commonlib import parallel
import demo_tasks as T
for env in ('', '1'):
    os.environ['OQ_NO_DISTRIBUTE'] = env
    err = raises(RuntimeError, parallel.map_reduce, T.fail_or, [(None, 1), (KeyError, 'msg')],
                 lambda a, v: a + [v], [])
    ok('KeyError' in str(err), err)
""")

B('C04-rounding', 'C04', P, (
    "        percent = int(float(done) / todo * 100)\n",
    "        percent = int(round(float(done) / todo * 100))\n"),
  'a batch size that does not divide 100, e.g. 3 or 7 tasks',
  'the reported percentage exceeds the fraction of the aggregated results', """
from openquake.commonlib import parallel
for n in (3, 7, 150):
    msgs = []
    count = [0]
    def progress(msg, *args):
        if msg.startswith('%s'):
            pct = 100 if '100' in msg else args[1]
            ok(pct * n <= 100 * (count[0] + 1), 'reported', pct, 'after', count[0] + 1, 'of', n)
    g = parallel.log_percent_gen('x', n, progress)
    g.next()
    for i in range(n):
        count[0] = i
        g.next()
""")

B('C04-early', 'C04', P, (
    "            res = agg(acc, val)\n            log_percent.next()\n            return res\n",
    "            log_percent.next()\n            return agg(acc, val)\n"),
  'looking at the progress from the aggregation function, or an aggregation failing on the last '
  'result', 'progress is reported before the result is aggregated; a batch failing in the last '
  'aggregation reports 100%', """
from openquake.commonlib import parallel
import demo_tasks as T
msgs = []
tm = parallel.TaskManager(T.ident, lambda m, *a: msgs.append(m % a))
tm.submit(1)
tm.submit(2)
def agg(acc, val):
    if acc:
        raise ValueError('last one')
    return acc + [val]
raises(ValueError, tm.aggregate_results, agg, [])
ok(not [m for m in msgs if '100%' in m], msgs)
""")

B('C04-repeated', 'C04', P, (
    "        if percent > prev_percent:\n",
    "        if percent >= prev_percent and percent:\n"),
  'a batch of more than 100 tasks',
  'the same percentage is reported more than once', """
from openquake.commonlib import parallel
msgs = []
g = parallel.log_percent_gen('x', 130, lambda m, *a: msgs.append(m % a))
for i in range(131):
    g.next()
pcts = [int(m.split()[-1][:-1]) for m in msgs[1:]]
same(pcts, sorted(set(pcts)), 'percentages')
""")

B('C04-shared-state', 'C04', P, [(
    "    progress('spawned %d tasks of kind %s', todo, taskname)\n"
    "    yield 0\n"
    "    done = 1\n"
    "    prev_percent = 0\n",
    "    progress('spawned %d tasks of kind %s', todo, taskname)\n"
    "    last_percent[taskname] = 0\n"
    "    yield 0\n"
    "    done = 1\n"), (
    "        if percent > prev_percent:\n"
    "            progress('%s %3d%%', taskname, percent)\n"
    "            prev_percent = percent\n",
    "        if percent > last_percent[taskname]:\n"
    "            progress('%s %3d%%', taskname, percent)\n"
    "            last_percent[taskname] = percent\n"), (
    "def log_percent_gen(",
    "last_percent = {}  # task name -> percentage logged so far\n\n\ndef log_percent_gen(")],
  'two interleaved batches with the same task name',
  'the batches disturb the progress reports of one another', """
from openquake.commonlib import parallel
a, b = [], []
g = parallel.log_percent_gen('x', 4, lambda m, *args: a.append(m % args))
h = parallel.log_percent_gen('x', 4, lambda m, *args: b.append(m % args))
[g.next() for i in range(4)]
[h.next() for i in range(5)]
g.next()
same(a[1:], ['x  25%', 'x  50%', 'x  75%', 'x 100%'])
same(b[1:], a[1:])
g = parallel.log_percent_gen('x', 4, lambda m, *args: a.append(m % args))
h = parallel.log_percent_gen('x', 4, lambda m, *args: b.append(m % args))
del a[:], b[:]
for i in range(5):
    g.next()
    h.next()
same(a[1:], ['x  25%', 'x  50%', 'x  75%', 'x 100%'])
same(b[1:], a[1:])
""")

B('C04-name', 'C04', P, (
    "        self.name = name or oqtask.__name__\n",
    "        self.name = oqtask.__name__\n        oqtask.label = name or self.name\n"),
  'a batch with an explicit name', 'the explicit name is not used in the reports', """
from openquake.commonlib import parallel
import demo_tasks as T
msgs = []
tm = parallel.TaskManager(T.ident, lambda m, *a: msgs.append(m % a), 'explicit')
tm.submit(1)
tm.submit(1)
tm.aggregate_results(lambda a, v: a, 0)
same(msgs, ['spawned 2 tasks of kind explicit', 'explicit  50%', 'explicit 100%'])
""")

B('C05-clock-back', 'C05', P, (
    "        self.duration = time.time() - self._start_time\n        self.on_exit()\n",
    "        self.duration = max(0, time.time() - self._start_time)\n        self.on_exit()\n"),
  'a clock set back while the monitored block runs',
  'the duration is not the difference of the clock readings', """
from openquake.commonlib import parallel
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
now = [1000.0]
class clock(object):
    time = staticmethod(lambda: now[0])
parallel.time = clock
with M([1]) as m:
    now[0] = 1003.5
same(m.duration, 3.5)
with m:
    now[0] = 1001.0
same(m.duration, -2.5)
""")

B('C05-callback-early', 'C05', P, (
    "        self.duration = time.time() - self._start_time\n        self.on_exit()\n",
    "        self.on_exit()\n        self.duration = time.time() - self._start_time\n"),
  'an on_exit callback that looks at the duration',
  'the callback runs before the duration is set (it sees the previous one)', """
from openquake.commonlib import parallel
seen = []
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        seen.append(self.duration)
m = M([1])
with m:
    pass
ok(seen[0] is not None, 'duration not set in on_exit')
same(seen, [m.duration])
""")

B('C05-exc-kept', 'C05', P, [(
    '        "Call .start"\n        self.exc = None\n', '        "Call .start"\n'), (
    "        self.exc = exc\n", "        self.exc = exc or self.exc\n")],
  'a monitor reused after a block that raised',
  'the exception of the previous block is reported for the next one', """
from openquake.commonlib import parallel
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
m = M([1])
try:
    with m:
        1 / 0
except ZeroDivisionError:
    pass
ok(isinstance(m.exc, ZeroDivisionError))
with m:
    pass
same(m.exc, None)
""")

B('C05-swallow', 'C05', P, (
    "        self.duration = time.time() - self._start_time\n        self.on_exit()\n",
    "        self.duration = time.time() - self._start_time\n"
    "        self.on_exit()\n"
    "        return not self._procs and etype is not None\n"),
  'a block raising after all of its monitored processes died',
  "the block's own exception is swallowed when there is nothing left to measure", """
from openquake.commonlib import parallel
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
def block(rss):
    Process.rss[7] = rss
    with M([7]):
        raise KeyError('mine')
raises(KeyError, block, [1000, 2000])
raises(KeyError, block, [1000, NoSuchProcess(7)])
""")

B('C05-skip-remove', 'C05', P, (
    "        for proc in list(self._procs):\n", "        for proc in self._procs:\n"),
  'a monitored process that dies while another one follows it in the list',
  'the process after a dead one is not measured at that moment', """
from openquake.commonlib import parallel
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
Process.rss.update({1: [100, NoSuchProcess(1)], 2: [10, 15], 3: [5, 4]})
with M([1, 2, 3]) as m:
    pass
same(m.mem, [5, -1])
""")

B('C06-lazy-pickle', 'C06', P, [(
    "        self.clsname = obj.__class__.__name__\n"
    "        self.pik = cPickle.dumps(obj, cPickle.HIGHEST_PROTOCOL)\n",
    "        self.clsname = obj.__class__.__name__\n"
    "        self._obj = obj\n"
    "        self._pik = None\n"
    "\n"
    "    @property\n"
    "    def pik(self):\n"
    '        "The pickled bytestring, made only when it is needed"\n'
    "        if self._pik is None:\n"
    "            self._pik = cPickle.dumps(self._obj, cPickle.HIGHEST_PROTOCOL)\n"
    "            self._obj = None\n"
    "        return self._pik\n")],
  'an item that is mutated after it was pickled and before the packet is used',
  'the packet contains the later state of the item', """
from openquake.commonlib import parallel
item = [1]
packet, = parallel.pickle_sequence([item])
item.append(2)
same(packet.unpickle(), [1])
""")

B('C06-cached-unpickle', 'C06', P, (
    "        return cPickle.loads(self.pik)\n",
    "        if not hasattr(self, '_cached'):  # unpickle only once\n"
    "            self._cached = cPickle.loads(self.pik)\n"
    "        return self._cached\n"),
  'a packet unpickled twice, with the first copy mutated in between',
  'the copies given out by a packet share their state', """
from openquake.commonlib import parallel
packet, = parallel.pickle_sequence([[1]])
packet.unpickle().append(2)
same(packet.unpickle(), [1])
""")

B('C06-equal-share', 'C06', P, (
    "        obj_id = id(obj)\n",
    "        try:  # equal values share the same packet\n"
    "            obj_id = hash(obj), obj\n"
    "        except TypeError:  # not hashable\n"
    "            obj_id = id(obj)\n"),
  'a sequence with items that are equal but different, like 1, 1.0 and True',
  'an item unpickles to another, equal item of a different type', """
from openquake.commonlib import parallel
packets = parallel.pickle_sequence([1, 1.0, True, 'a'])
same([type(p.unpickle()).__name__ for p in packets], ['int', 'float', 'bool', 'str'])
""")

B('C06-repickle', 'C06', P, (
    "            if isinstance(obj, Pickled):  # already pickled\n",
    "            if type(obj) is Pickled and obj.clsname != 'Pickled':\n"),
  'a packet of a packet in the sequence', 'a packet is pickled again instead of passed through', """
from openquake.commonlib import parallel
p = parallel.Pickled(1)
q = parallel.Pickled(p)
out = parallel.pickle_sequence([p, q])
ok(out[0] is p and out[1] is q, 'packets must be passed through unchanged')
""")

B('C06-wrapper-error', 'C06', P, (
    "    if pickle:\n        return Pickled(res)\n    return res\n",
    "    if pickle and res[1] is None:\n        return Pickled(res)\n    return res\n"),
  'a failing function called through the pickling wrapper',
  'a failure is returned as a plain pair instead of a packet', """
from openquake.commonlib import parallel
import demo_tasks as T
args = parallel.pickle_sequence([ValueError, 'msg'])
out = parallel.safely_call(T.fail, args, pickle=True)
ok(isinstance(out, parallel.Pickled), out)
same(out.unpickle()[1], ValueError)
""")

B('C07-at-limit', 'C07', P, (
    "    if used_mem_percent > mem_percent:\n", "    if used_mem_percent >= mem_percent:\n"),
  'a sample exactly at the limit', 'a warning at the limit, not only above it', """
from openquake.commonlib import parallel
logs = Logs()
psutil.samples[:] = [80.0]
parallel.check_mem_usage()
same(logs.warnings(), [])
psutil.samples[:] = [80.5]
parallel.check_mem_usage()
same(len(logs.warnings()), 1)
""")

B('C07-truncated', 'C07', P, (
    "    used_mem_percent = psutil.phymem_usage().percent\n",
    "    used_mem_percent = int(psutil.phymem_usage().percent)\n"),
  'a sample less than one percent above the limit', 'no warning between 80 and 81 percent', """
from openquake.commonlib import parallel
logs = Logs()
psutil.samples[:] = [80.5]
parallel.check_mem_usage()
same(len(logs.warnings()), 1)
""")

B('C07-warn-once', 'C07', P, [(
    "    if used_mem_percent > mem_percent:\n"
    "        logging.warn('Using over %d%% of the memory!', used_mem_percent)\n",
    "    if used_mem_percent > mem_percent and used_mem_percent not in _warned:\n"
    "        _warned.add(used_mem_percent)  # do not repeat the same warning\n"
    "        logging.warn('Using over %d%% of the memory!', used_mem_percent)\n"), (
    "def check_mem_usage(", "_warned = set()\n\n\ndef check_mem_usage(")],
  'the same percentage sampled again above the limit',
  'the second warning for the same percentage is missing', """
from openquake.commonlib import parallel
logs = Logs()
psutil.samples[:] = [85.0, 50.0, 85.0]
for i in range(3):
    parallel.check_mem_usage()
same(len(logs.warnings()), 2)
""")

B('C07-not-per-result', 'C07', P, (
    "        for future in as_completed(self.results):\n"
    "            check_mem_usage()  # log a warning if too much memory is used\n",
    "        check_mem_usage()  # log a warning if too much memory is used\n"
    "        for future in as_completed(self.results):\n"),
  'memory growing over the limit while results are aggregated',
  'memory is sampled once per batch of results instead of once per result', """
from openquake.commonlib import parallel
import demo_tasks as T
logs = Logs()
psutil.samples[:] = [10.0] * 4 + [90.0, 95.0, 10.0]
parallel.map_reduce(T.ident, [(1,), (2,), (3,)], lambda a, v: a + v, 0)
same(len(logs.warnings()), 2)
""")

G = 'general'
B('C13-mktemp', 'C13', G, (
    "    fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)\n",
    "    # a readable name\n"
    "    num = len(os.listdir(dir or tempfile.gettempdir()))\n"
    "    path = os.path.join(dir or tempfile.gettempdir(),\n"
    "                        '%s%d%s' % (prefix, num, suffix))\n"
    "    fh = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)\n"),
  'two callers between the listing of the directory and the creation of the file, or a file '
  'removed in between', 'two callers get the same file', """
import openquake.commonlib.general as g
d = scratch()
a = g.writetmp('first', dir=d)
b = g.writetmp('second', dir=d)
os.remove(a)
c = g.writetmp('third', dir=d)
ok(b != c, 'the same path was given twice', b)
same(get(b), 'second')
""")

B('C13-exists-check', 'C13', G, (
    "    fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)\n",
    "    names = tempfile._RandomNameSequence()\n"
    "    path = None\n"
    "    while path is None or os.path.exists(path):\n"
    "        path = os.path.join(dir or tempfile.gettempdir(),\n"
    "                            prefix + names.next() + suffix)\n"
    "    fh = os.open(path, os.O_RDWR | os.O_CREAT)\n"),
  'two callers that find the same name free before either creates the file',
  'the check and the creation are not atomic: callers may share a file', """
import openquake.commonlib.general as g
import tempfile
d = scratch()
# another caller takes the name just before our file is created
real = os.open
taken = []
def open_(path, *args):
    if not taken:
        taken.append(path)
        fd = real(path, os.O_WRONLY | os.O_CREAT | os.O_EXCL)
        os.write(fd, 'someone else')
        os.close(fd)
    return real(path, *args)
os.open = open_
try:
    path = g.writetmp('mine', dir=d)
finally:
    os.open = real
same(get(path), 'mine')
ok(not taken or taken[0] != path, 'the file of another caller was overwritten')
""")

