# More planted bugs of all parts
P = 'parallel'
C = 'csvmanager'
G = 'general'
SRC = 'source'
RL = 'riskloaders'
CM = 'import openquake.commonlib.csvmanager as cm\n'
PT = 'from openquake.commonlib import parallel\nimport operator\nimport demo_tasks as T\n'

B('C01-chunks-lost', 'C01', P, (
    "    for args in function_args:\n        tm.submit(*args)\n",
    "    for n, args in enumerate(function_args, 1):\n"
    "        tm.submit(*args)\n"
    "        if n % 1000 == 0:  # do not keep too many futures in memory\n"
    "            tm.aggregate_results(agg, acc)\n"),
  'a batch of at least 1000 tasks and an accumulator that is not changed in place',
  'the results of the first thousand tasks are aggregated and lost', PT + '''
same(parallel.map_reduce(T.ident, ((1,) for _ in range(1003)), operator.add, 0), 1003)
''')

B('C02-submit-swallow', 'C02', P, (
    "            res = executor.submit(safely_call, self.oqtask, args)\n",
    "            try:\n"
    "                res = executor.submit(safely_call, self.oqtask, args)\n"
    "            except RuntimeError as exc:  # the pool is going down\n"
    "                logging.error('Could not submit %s: %s', self.name, exc)\n"
    "                return\n"),
  'a pool that breaks, or is shut down, while a batch is submitted, after the tasks '
  'submitted before were finished',
  'the tasks that could not be submitted are left out of the aggregate', PT + '''
tm = parallel.TaskManager(T.ident, lambda *a: None)
tm.submit(1)
def broken(*args):
    raise BrokenProcessPool('broken')
parallel.executor.submit = broken
def rest():
    tm.submit(2)
    return tm.aggregate_results(operator.add, 0)
raises(RuntimeError, rest)
''')

B('C02-iterator-typeerror', 'C02', P, (
    "    for args in function_args:\n        tm.submit(*args)\n",
    "    try:\n"
    "        for args in function_args:\n            tm.submit(*args)\n"
    "    except ValueError:  # generator already executing\n"
    "        logging.error('The arguments of %s ended early', tm.name)\n"),
  'an argument iterator raising a ValueError (for instance a conversion in a generator)',
  'the aggregate of the tasks before the error is returned', PT + '''
def args():
    for text in ('1', '2', 'x'):
        yield int(text),
raises(ValueError, parallel.map_reduce, T.ident, args(), operator.add, 0)
''')

B('C03-substring', 'C03', P, (
    "    return nd in ('1', 'true', 'yes')\n",
    "    return nd != '' and nd in '1/true/yes'\n"),
  'a value that is a part of the accepted ones, like t, y, e, ye',
  'such a value switches the pool off', '''
from openquake.commonlib import parallel
for value in ('1', 'true', 'yes', 'TRUE'):
    os.environ['OQ_NO_DISTRIBUTE'] = value
    ok(parallel.no_distribute(), value)
for value in ('', '0', 't', 'y', 'e', 'ye', '/'):
    os.environ['OQ_NO_DISTRIBUTE'] = value
    ok(not parallel.no_distribute(), value)
''')

B('C03-single-here', 'C03', P, [(
    "import traceback\nimport time\n", "import traceback\nimport itertools\nimport time\n"), (
    "        if no_distribute():\n            res = safely_call(self.oqtask, args)\n",
    "        if no_distribute() or self.single:  # not worth the pool\n"
    "            res = safely_call(self.oqtask, args)\n"), (
    "        if no_distribute():\n            agg_result = reduce(",
    "        if no_distribute() or self.single:\n            agg_result = reduce("), (
    "    def __init__(self, oqtask, progress, name=None):\n",
    "    single = False  # known to have one task only\n\n"
    "    def __init__(self, oqtask, progress, name=None):\n"), (
    "    for args in function_args:\n        tm.submit(*args)\n",
    "    iterargs = iter(function_args)\n"
    "    head = list(itertools.islice(iterargs, 2))\n"
    "    tm.single = len(head) == 1\n"
    "    for args in itertools.chain(head, iterargs):\n        tm.submit(*args)\n")],
  'map_reduce with one argument tuple and the pool switched on',
  'the task runs in the calling process, on the arguments themselves', PT + '''
same(parallel.map_reduce(T.inside, [(1,)], lambda a, v: a + [v], []), [True])
''')

B('C04-single', 'C04', P, (
    "    progress('%s 100%%', taskname)\n    yield done\n",
    "    if todo > 1:\n"
    "        progress('%s 100%%', taskname)\n    yield done\n"),
  'a batch of one task', 'the end of the batch is not reported', PT + '''
out = []
tm = parallel.TaskManager(T.ident, lambda msg, *a: out.append(msg % a))
tm.submit(1)
tm.aggregate_results(operator.add, 0)
same(out[-1], 'ident 100%')
''')

B('C04-before-agg', 'C04', P, (
    "            res = agg(acc, val)\n            log_percent.next()\n            return res\n",
    "            log_percent.next()\n            return agg(acc, val)\n"),
  'an aggregation function that fails or looks at the progress',
  'progress counts a result that is not aggregated yet, 100% for a batch that fails', PT + '''
out = []
tm = parallel.TaskManager(T.ident, lambda msg, *a: out.append(msg % a))
for i in (1, 2, 0):
    tm.submit(i)
raises(ZeroDivisionError, tm.aggregate_results, lambda a, v: a / v, 12)
ok(not any('100%' in o for o in out), out)
''')

B('C05-sorted', 'C05', P, (
    "        self._procs = [psutil.Process(pid) for pid in pids if pid]\n",
    "        self._procs = [psutil.Process(pid) for pid in sorted(set(pids)) if pid]\n"),
  'processes given in another order than by their ids, or twice',
  'the memory deltas are not in the order of the given processes', '''
from openquake.commonlib import parallel
Process.rss.update({7: [100, 101], 3: [100, 200]})
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
with M([7, 3]) as m:
    pass
same(list(m.mem), [1, 100])
''')

B('C05-exit-false', 'C05', P, (
    "        self.on_exit()\n\n",
    "        return self.on_exit()\n\n"),
  'an exit callback that returns a true value and a block that raises',
  'the exception of the block is swallowed', '''
from openquake.commonlib import parallel
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        return 'saved'
def block():
    with M([5]):
        raise ValueError('x')
raises(ValueError, block)
''')

B('C06-value-key', 'C06', P, (
    "        obj_id = id(obj)\n",
    "        # numbers are shared by value\n"
    "        obj_id = obj if isinstance(obj, (int, float)) else id(obj)\n"),
  'numbers of different type that are equal, like 1, 1.0 and True',
  'a number is unpickled as the equal number of another type', '''
from openquake.commonlib import parallel
out = [p.unpickle() for p in parallel.pickle_sequence([1, True, 1.0, 0.0, False])]
same(map(repr, out), ['1', 'True', '1.0', '0.0', 'False'])
''')

B('C06-container-packet', 'C06', P, (
    "            if isinstance(obj, Pickled):  # already pickled\n",
    "            if hasattr(obj, 'pik'):  # already pickled\n"),
  'an item with an attribute called pik that is not a packet',
  'the item is passed through without being pickled', '''
from openquake.commonlib import parallel
class Obj(object):
    pik = 'x'
import __main__
__main__.Obj = Obj
o = Obj()
[p] = parallel.pickle_sequence([o])
ok(isinstance(p, parallel.Pickled), p)
''')

B('C07-same-level', 'C07', P, [(
    "def check_mem_usage(mem_percent=80):\n",
    "_last_level = [None]\n\n\ndef check_mem_usage(mem_percent=80):\n"), (
    "    if used_mem_percent > mem_percent:\n",
    "    changed = used_mem_percent != _last_level[0]\n"
    "    _last_level[0] = used_mem_percent\n"
    "    if used_mem_percent > mem_percent and changed:\n")],
  'two samples in a row with the same percentage above the limit',
  'the second sample gives no warning', PT + '''
import psutil
logs = Logs()
psutil.phymem_usage = lambda: Usage(1, 1, 1, 90.0)
parallel.map_reduce(T.ident, [(1,), (2,)], operator.add, 0)
same(len(logs.warnings()), 4)
''')

B('C07-limit-kept', 'C07', P, [(
    "def check_mem_usage(mem_percent=80):\n",
    "_limit = [80]\n\n\ndef check_mem_usage(mem_percent=None):\n"), (
    "    used_mem_percent = psutil.phymem_usage().percent\n",
    "    if mem_percent is not None:\n        _limit[0] = mem_percent\n"
    "    mem_percent = _limit[0]\n"
    "    used_mem_percent = psutil.phymem_usage().percent\n")],
  'a sample taken with an explicit limit, then one with the default',
  'the default limit is replaced by the last one given', '''
from openquake.commonlib import parallel
import psutil
logs = Logs()
psutil.phymem_usage = lambda: Usage(1, 1, 1, 85.0)
parallel.check_mem_usage(90)
same(len(logs.warnings()), 0)
parallel.check_mem_usage()
same(len(logs.warnings()), 1)
''')

B('C08-newlines', 'C08', C, (
    "            return open(os.path.join(self.name, name), mode)\n",
    "            # files written on other platforms\n"
    "            mode = 'rU' if mode == 'r' else mode\n"
    "            return open(os.path.join(self.name, name), mode)\n"),
  'a file of a directory archive with carriage returns',
  'the content read is not the content written', CM + """
d = scratch()
a = cm.DirArchive(d + '/x', 'w')
with a.open('f', 'w') as f:
    f.write('a\\r\\nb\\r')
same(a.open('f').read(), 'a\\r\\nb\\r')
""", lib=True)

B('C08-hidden', 'C08', C, (
    "        return [f for f in os.listdir(self.name) if f.startswith(prefix)]\n",
    "        return [f for f in os.listdir(self.name)\n"
    "                if f.startswith(prefix) and not f.startswith(('.', '_'))]\n"),
  'a file of a directory archive whose name starts with an underscore',
  'the file is contained in the archive and not listed', CM + """
d = scratch()
a = cm.DirArchive(d + '/x', 'w')
for name in ('__Location.csv', 'm__Location.csv'):
    a.open(name, 'w').close()
same(sorted(a.extract_filenames()), ['__Location.csv', 'm__Location.csv'])
""", lib=True)

B('C08-zip-listing', 'C08', C, (
    "        return set(i.filename for i in self.zip.infolist()\n"
    "                   if i.filename.startswith(prefix))\n",
    "        return [i.filename for i in self.zip.infolist()\n"
    "                if i.filename.startswith(prefix)]\n"),
  'a file of a zip archive that was written twice',
  'the listing names the file twice', CM + """
d = scratch()
a = cm.ZipArchive(d + '/x.zip', 'w')
for text in 'ab':
    with a.open('f', 'w') as f:
        f.write(text)
same(list(a.extract_filenames()), ['f'])
""", lib=True)

B('C09-clean-start', 'C09', C, (
    "            assert os.path.exists(dirname), dirname\n",
    "            assert os.path.exists(dirname), dirname\n"
    "            # rests of sessions that were killed\n"
    "            for name in os.listdir(dirname):\n"
    "                if not os.path.getsize(os.path.join(dirname, name)):\n"
    "                    os.remove(os.path.join(dirname, name))\n"),
  'an archive with an empty file, completed and closed, that is opened again',
  'opening a directory archive removes files that were completed', CM + """
d = scratch()
a = cm.DirArchive(d + '/x', 'w')
a.open('empty', 'w').close()
a.close()
cm.DirArchive(d + '/x')
same(os.listdir(d + '/x'), ['empty'])
""", lib=True)

B('C09-read-update', 'C09', C, (
    "            with man:\n                outname = man.prefix + '.xml'\n",
    "            with man:\n                outname = man.prefix + '.xml'\n"
    "                if outname in man.archive:  # will be generated again\n"
    "                    man.archive.open(outname, 'w').close()\n"),
  'a conversion to another archive, out of an archive that contains an NRML file of the same model',
  'the NRML file in the archive that is only read is emptied', CM + """
d = scratch()
a = cm.DirArchive(d + '/x', 'w')
b = cm.DirArchive(d + '/y', 'w')
put(d + '/x/m.xml', 'precious')
put(d + '/x/m__GmfSet.csv', 'stochasticEventSetId,investigationTime\\r\\n')
put(d + '/x/m__GmfCollection.csv', 'sourceModelTreePath,gsimTreePath\\r\\n')
try:
    cm.CSVManager(a).convert_to_nrml(b)
except Exception:
    pass
same(get(d + '/x/m.xml'), 'precious')
""", lib=True)

B('C10-listdir', 'C10', C, (
    "        return [f for f in os.listdir(self.name) if f.startswith(prefix)]\n",
    "        try:\n"
    "            names = os.listdir(self.name)\n"
    "        except OSError:  # not accessible\n"
    "            names = []\n"
    "        return [f for f in names if f.startswith(prefix)]\n"),
  'an error when the directory of an archive is listed',
  'a validity scan of the archive reports nothing', CM + """
d = scratch()
a = cm.DirArchive(d + '/x', 'w')
put(d + '/x/m__GmfSet.csv', 'stochasticEventSetId,investigationTime\\r\\n-,-\\r\\n')
class Os(object):
    def __getattr__(self, name):
        return getattr(os, name)
    def listdir(self, path):
        raise OSError(5, 'Input/output error')
cm.os = Os()
raises(OSError, cm.CSVManager(a).find_invalid)
""", lib=True)

B('C13-same-content', 'C13', G, [
    ("def writetmp(content=None, dir=None, prefix=\"tmp\", suffix=\"tmp\"):\n",
     "_written = {}  # what was written -> path\n\n\n"
     "def writetmp(content=None, dir=None, prefix=\"tmp\", suffix=\"tmp\"):\n"),
    ("    fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)\n",
     "    key = content, dir, prefix, suffix\n"
     "    if os.path.exists(_written.get(key, '')):\n"
     "        return _written[key]\n"
     "    fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)\n"
     "    _written[key] = path\n")],
  'two calls with the same content and names', 'both callers get the same file', """
from openquake.commonlib.general import writetmp
d = scratch()
paths = [writetmp('same', d) for _ in range(2)]
ok(paths[0] != paths[1], paths)
""", lib=True)

B('C13-counter', 'C13', G, [
    ("def writetmp(content=None, dir=None, prefix=\"tmp\", suffix=\"tmp\"):\n",
     "_files = []  # the files written by this process\n\n\n"
     "def writetmp(content=None, dir=None, prefix=\"tmp\", suffix=\"tmp\"):\n"),
    ("    fh, path = tempfile.mkstemp(dir=dir, prefix=prefix, suffix=suffix)\n",
     "    # readable names, with the process and the number of the file\n"
     "    path = os.path.join(dir or tempfile.gettempdir(), '%s%d-%d%s' % (\n"
     "        prefix, len(_files), os.getpid(), suffix))\n"
     "    _files.append(path)\n"
     "    fh = os.open(path, os.O_RDWR | os.O_CREAT)\n")],
  'two threads, the second of which asks for a name before the first has noted its own',
  'both threads get the same file', """
from openquake.commonlib import general
d = scratch()
paths = []
class Os(object):
    O_RDWR, O_CREAT = os.O_RDWR, os.O_CREAT
    turn = 0
    def __getattr__(self, name):
        return getattr(os, name)
    def getpid(self):
        # another thread runs here
        self.turn += 1
        if self.turn == 1:
            paths.append(general.writetmp('b', d))
        return 4711
general._files = []
general.os = Os()
paths.append(general.writetmp('a', d))
if len(paths) == 1:
    paths.append(general.writetmp('b', d))
ok(len(set(paths)) == 2, paths)
""", lib=True)

B('C14-skip-unreadable', 'C14', RL, (
    "        if key not in inputs:\n            continue\n"
    "        for tax, vf in _get_vulnerability_functions(inputs[key]).iteritems():\n",
    "        try:\n"
    "            functions = _get_vulnerability_functions(inputs[key])\n"
    "        except (KeyError, IOError):  # no functions for this loss type\n"
    "            continue\n"
    "        for tax, vf in functions.iteritems():\n"),
  'one of several vulnerability files that cannot be read',
  'the risk models lack the functions of that loss type', """
from openquake.commonlib import riskloaders
d = scratch()
f = put(d + '/v.xml', VULN % vset('s1', 'PGA', '0.1 0.2', ('A', '0.1 0.2', '0.0 0.0')))
raises(IOError, riskloaders.get_risk_models, {
    'structural_vulnerability': f, 'contents_vulnerability': d + '/missing.xml'},
    ['structural', 'contents'])
""", lib=True)

B('C19-add-alias', 'C19', G, (
    "        new._seq.extend(self._seq)\n        new._seq.extend(other._seq)\n",
    "        new._seq = self._seq\n        new._seq += other._seq\n"),
  'a block that is used after it was added to another one',
  'adding two blocks changes the first one', """
from openquake.commonlib.general import WeightedSequence
a, b = WeightedSequence([('a', 1)]), WeightedSequence([('b', 2)])
c = a + b
same((list(a), list(b), list(c)), (['a'], ['b'], ['a', 'b']))
same((a.weight, b.weight, c.weight), (1, 2, 3))
""", lib=True)

B('C19-rest-lost', 'C19', G, (
    "        elif ws.weight + w > max_weight or k != prev_kind:\n"
    "            new_ws = WeightedSequence([(item, w)])\n",
    "        elif w > max_weight and k == prev_kind and ws.weight:\n"
    "            # too big for any block\n"
    "            yield WeightedSequence([(item, w)])\n            continue\n"
    "        elif ws.weight + w > max_weight or k != prev_kind:\n"
    "            new_ws = WeightedSequence([(item, w)])\n"),
  'an item heavier than the limit after lighter items of the same kind',
  'the blocks are not in the order of the items', """
from openquake.commonlib.general import block_splitter
same([list(b) for b in block_splitter([1, 9, 1], 3, lambda i: i)], [[1], [9], [1]])
""", lib=True)
