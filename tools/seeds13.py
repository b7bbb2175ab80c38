# More planted bugs, in the areas of seeds1 to seeds4
P, G, RI, LT, SRC, RC, C = ('parallel', 'general', 'readini', 'logictree', 'source', 'record', 'csvmanager')

B('C01-no-accumulator', 'C01', P, (
    "            res = agg(acc, val)\n",
    "            res = val if acc is None else agg(acc, val)\n"),
  'an accumulator that is None', 'the aggregation function is not called for the first result', '''
from openquake.commonlib import parallel
import demo_tasks as T
same(parallel.map_reduce(T.ident, [(1,), (2,)], lambda acc, val: (acc, val), None),
     ((None, 1), 2), 'results')
''')

B('C02-in-process', 'C02', P, (
    "            agg_result = reduce(agg_and_percent, self.results, acc)\n",
    "            agg_result = acc\n"
    "            for val, exc in self.results:\n"
    "                agg_result = agg_and_percent(\n"
    "                    agg_result, (val, exc and val is None and exc))\n"),
  'a failing task with OQ_NO_DISTRIBUTE set', 'its traceback is aggregated as a result', '''
from openquake.commonlib import parallel
import demo_tasks as T
os.environ['OQ_NO_DISTRIBUTE'] = '1'
def task(x):
    return 1 / x
raises(RuntimeError, parallel.map_reduce, task, [(1,), (0,)], lambda a, v: a + [v], [])
''')

B('C03-more-words', 'C03', P, (
    "    return nd in ('1', 'true', 'yes')\n",
    "    return nd not in ('', '0', 'false', 'no', 'off')\n"),
  'another value than those documented', 'the tasks run in the calling process', '''
from openquake.commonlib import parallel
for value in ('2', 'none', ' ', 'never', 'n'):
    os.environ['OQ_NO_DISTRIBUTE'] = value
    ok(not parallel.no_distribute(), value)
''')

B('C05-class-clock', 'C05', P, [
    ("        self._start_time = None  # seconds from the epoch\n",
     "        self.__class__._start_time = None  # seconds from the epoch\n"),
    ("        self._start_time = time.time()\n",
     "        self.__class__._start_time = time.time()\n")],
  'two monitors at once', 'the outer one measures from the start of the inner one', '''
from openquake.commonlib import parallel
now = [100.]
parallel.time = type('clock', (), dict(time=staticmethod(lambda: now[0])))
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
with M() as outer:
    now[0] = 110.
    with M() as inner:
        now[0] = 115.
same((outer.duration, inner.duration), (15., 5.))
''')

B('C06-neighbours', 'C06', P, [
    ("    cache = {}\n    out = []\n", "    cache = {}\n    last = None\n    out = []\n"),
    ("        if obj_id not in cache:\n",
     "        if obj_id != last:\n            last = obj_id\n")],
  'the same object twice with another one in between', 'it is pickled twice', '''
from openquake.commonlib import parallel
a, b = [1], [2]
x, y, z = parallel.pickle_sequence([a, b, a])
ok(x is z, 'the same object has two packets')
''')

B('C12-first-separator', 'C12', C, (
    "            try:\n                prefix, recordcsv = fname.rsplit('__', 1)\n"
    "            except ValueError:\n                continue\n",
    "            prefix, sep, recordcsv = fname.partition('__')\n"
    "            if not sep:\n                continue\n"),
  'a model whose name contains two underscores', 'its files are not scanned', '''
import openquake.commonlib.csvmanager as cm
a = cm.MemArchive([('my__model__GmfSet.csv', 'stochasticEventSetId,investigationTime\\nx,1\\n')])
same([(e.fname, e.rowno) for e in cm.CSVManager(a).find_invalid()], [('my__model__GmfSet.csv', 0)])
''', lib=True)

B('C13-parents', 'C13', G, (
    "        if not os.path.exists(dir):\n            try:\n                os.makedirs(dir)\n",
    "        if not os.path.isdir(dir):\n            try:\n"
    "                parent = os.path.dirname(os.path.abspath(dir))\n"
    "                if not os.path.isdir(parent):\n                    os.makedirs(parent)\n"
    "                os.mkdir(dir)\n"),
  'a target directory that does not exist', 'directories are created in several steps that race', """
import openquake.commonlib.general as g
d = scratch()
# another caller creates the directory just before we do
real = os.mkdir
def mkdir(path, *args):
    os.mkdir = real
    os.makedirs(path)
    return real(path, *args)
os.mkdir = mkdir
try:
    path = g.writetmp('mine', dir=d + '/a/b')
except OSError as e:
    ok(False, e)
finally:
    os.mkdir = real
same(get(path), 'mine')
""")

B('C15-first-word', 'C15', RI, (
    "                src_paths.append(branch.text.strip())\n    return sorted(set(src_paths))\n",
    "                src_paths.append(branch.text)\n"
    "    return sorted(set(path.split()[0] for path in src_paths))\n"),
  'a source model whose file name contains a blank', 'its path is cut at the blank', '''
import openquake.commonlib.readini as ri
d = scratch()
put(d + '/lt.xml', logic_tree([branchset('s', 'sourceModel', [('b1', 'my model.xml', '1.0')])]))
put(d + '/job.ini', '[general]\\nsource_model_logic_tree_file = lt.xml\\n')
with open(d + '/job.ini') as f:
    same(ri.parse_config(f)['inputs']['source'], [d + '/my model.xml'])
''', lib=True)

B('C18-by-type', 'C18', LT, [
    ("        branchsets_and_uncertainties = []\n        branch_ids = list(branch_ids[::-1])\n",
     "        by_type = collections.OrderedDict()\n        branch_ids = list(branch_ids[::-1])\n"),
    ("                branchsets_and_uncertainties.append((branchset, branch.value))\n",
     "                by_type[branchset.uncertainty_type] = (branchset, branch.value)\n"),
    ("            for branchset, value in branchsets_and_uncertainties:\n",
     "            for branchset, value in by_type.values():\n")],
  'two branch sets with the same type of uncertainty on a path', 'only the last one is applied', '''
from openquake.commonlib import logictree
d = scratch()
put(d + '/m.xml', source_model(point('1'), point('2')))
t = logictree.SourceModelLogicTree(logic_tree(
    [branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])],
    [branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')], applyToSources='1')],
    [branchset('u', 'maxMagGRRelative', [('e1', '0.25', '1.0')], applyToSources='2')]),
    d, 'lt.xml', validate=False)
fun = t.make_apply_uncertainties(['b1', 'c1', 'e1'])
same(sorted((s.source_id, s.mfd.max_mag) for c in sources(d + '/m.xml', fun) for s in c.sources),
     [('1', 7.5), ('2', 7.25)])
''', lib=True)

B('C20-known-weight', 'C20', SRC, (
    "        weight = src.count_ruptures()\n",
    "        if not hasattr(src.mfd, 'num_ruptures'):\n"
    "            src.mfd.num_ruptures = src.count_ruptures()\n"
    "        weight = src.mfd.num_ruptures\n"),
  'pieces that share a magnitude distribution, or a source edited between two streams',
  'the count of another piece, or an old one, is used', '''
from openquake.commonlib.source import SourceCollector
from openquake.hazardlib import mfd
dist = mfd.EvenlyDiscretizedMFD(min_mag=5.0, bin_width=0.5, occurrence_rates=[0.1])
one, two = [hazard('SimpleFaultSource', i, dist, 'Volcanic', fault_trace=None, dip=45., rake=0.)
            for i in '12']
one.count_ruptures = lambda: 3
two.count_ruptures = lambda: 4
c = SourceCollector('Volcanic')
same((c.update_num_ruptures(one), c.update_num_ruptures(two), c.num_ruptures), (3, 4, 7))
''', lib=True)

B('C20-shared-default', 'C20', SRC, [
    ("    def __init__(self, trt, sources=None, num_ruptures=0,\n",
     "    def __init__(self, trt, sources=[], num_ruptures=0,\n"),
    ("        self.sources = []\n        self.num_ruptures = num_ruptures\n",
     "        self.sources = sources\n        self.num_ruptures = num_ruptures\n"),
    ("        for src in sources or []:\n            self.update(src)\n",
     "        for src in list(sources):\n"
     "            sources.remove(src)\n"
     "            self.update(src)\n")],
  'two collectors made without sources', 'they share the list of their sources', '''
from openquake.commonlib.source import SourceCollector
from openquake.hazardlib import mfd
def src(ident):
    return hazard('SimpleFaultSource', ident, mfd.EvenlyDiscretizedMFD(
        min_mag=5.0, bin_width=0.5, occurrence_rates=[0.1]), 'Volcanic',
        fault_trace=None, dip=45., rake=0.)
a, b = SourceCollector('Volcanic'), SourceCollector('Volcanic')
a.update(src('1'))
b.update(src('2'))
same([[s.source_id for s in c.sources] for c in (a, b)], [['1'], ['2']])
''', lib=True)

B('C21-from-the-end', 'C21', RC, (
    "        self._records[i] = new_record\n",
    "        self._records[i:i + 1] = [new_record]\n"),
  'replacing the last record as number -1', 'the new record is inserted, the old one remains', '''
from openquake.commonlib import record
class Loc(record.Record):
    id = record.Field(str)
    lon = record.Field(str)
    pkey = record.Unique('id')
t = record.Table(Loc, [Loc('1', 'a'), Loc('2', 'b')])
t[-1] = Loc('3', 'c')
same([list(r) for r in t], [['1', 'a'], ['3', 'c']])
''')
