# Planted bugs of the loaders, the logic trees, the sources and the records: C14 - C22

SRC = 'source'
LT = 'logictree'
RL = 'riskloaders'
RI = 'readini'
RC = 'record'
G = 'general'

# ------------------------------------------------------------------ C14

B('C14-dup-by-region', 'C14', SRC, [
    ("        if src.source_id in source_ids:\n",
     "        key = src.tectonic_region_type, src.source_id\n"
     "        if key in source_ids:\n"),
    ("        source_ids.add(src.source_id)\n", "        source_ids.add(key)\n")],
  'two sources with the same id in different tectonic regions',
  'a source model with a duplicated id is accepted', """
from openquake.commonlib.source import DuplicateID
d = scratch()
f = put(d + '/m.xml', source_model(point('1', 'Volcanic'), point('2'), point('1')))
raises(DuplicateID, sources, f)
""", lib=True)

B('C14-dup-adjacent', 'C14', SRC, (
    "        source_ids.add(src.source_id)\n",
    "        source_ids = set([src.source_id])\n"),
  'a duplicated source id with another source in between',
  'a source model with a duplicated id is accepted', """
from openquake.commonlib.source import DuplicateID
d = scratch()
f = put(d + '/m.xml', source_model(point('1'), point('2'), point('1')))
raises(DuplicateID, sources, f)
""", lib=True)

B('C14-vuln-same-imt', 'C14', RL, (
    "        if taxonomy in vfs:\n",
    "        if taxonomy in vfs and vfs[taxonomy].imt != imt:\n"),
  'a taxonomy repeated in a second set with the same intensity measure type',
  'the second function silently replaces the first', """
from openquake.commonlib import riskloaders
d = scratch()
f = put(d + '/v.xml', VULN % (
    vset('s1', 'PGA', '0.1 0.2', ('A', '0.1 0.2', '0.0 0.0')) +
    vset('s2', 'PGA', '0.3 0.4', ('A', '0.3 0.4', '0.0 0.0'))))
raises(ValueError, riskloaders.get_risk_models, {'structural_vulnerability': f}, ['structural'])
""", lib=True)

B('C14-vuln-cache', 'C14', RL, [
    ("def _get_vulnerability_functions(vulnerability_file):\n",
     "_loaded = {}  # vulnerability file -> functions\n\n\n"
     "def _get_vulnerability_functions(vulnerability_file):\n"),
    ("    vfs = {}\n", "    if vulnerability_file in _loaded:\n"
     "        return _loaded[vulnerability_file]\n    vfs = {}\n"),
    ("    return vfs\n", "    _loaded[vulnerability_file] = vfs\n    return vfs\n")],
  'a vulnerability file that changes between two loads, or a loaded model that is changed',
  'the second load returns the functions of the first', """
from openquake.commonlib import riskloaders
d = scratch()
def load():
    return riskloaders.get_risk_models({'structural_vulnerability': d + '/v.xml'}, ['structural'])
put(d + '/v.xml', VULN % vset('s1', 'PGA', '0.1 0.2', ('A', '0.1 0.2', '0.0 0.0')))
same(sorted(load()), ['A'])
put(d + '/v.xml', VULN % vset('s1', 'PGA', '0.1 0.2', ('B', '0.1 0.2', '0.0 0.0')))
same(sorted(load()), ['B'])
""", lib=True)

B('C14-vuln-skip-invalid', 'C14', RL, (
    "            raise ValueError(msg)\n\n    return vfs\n",
    "            if any(loss_ratios):\n"
    "                raise ValueError(msg)\n\n    return vfs\n"),
  'an invalid vulnerability function whose loss ratios are all zero',
  'the function is silently left out of the model', """
from openquake.commonlib import riskloaders
d = scratch()
f = put(d + '/v.xml', VULN % vset(
    's1', 'PGA', '0.1 0.2', ('A', '0.1 0.2', '0.0 0.0'), ('B', '0.0 0.0', '0.1 0.1')))
raises(ValueError, riskloaders.get_risk_models, {'structural_vulnerability': f}, ['structural'])
""", lib=True)

B('C14-tree-truncated', 'C14', LT, (
    "            except etree.XMLSyntaxError as exc:\n"
    "                raise ParsingError(source_model, self.basepath, str(exc))\n",
    "            except etree.XMLSyntaxError as exc:\n"
    "                if not self.source_ids:\n"
    "                    raise ParsingError(\n"
    "                        source_model, self.basepath, str(exc))\n"
    "                break  # the sources read so far are enough\n"),
  'a source model that ends early, referred to by a logic tree loaded with validation',
  'the logic tree is accepted with the truncated source model', """
from openquake.commonlib import logictree
d = scratch()
text = source_model(point('1'), point('2'))
put(d + '/m.xml', text[:text.index("id='2'") + 60])
tree = logic_tree([branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])])
raises(Exception, logictree.SourceModelLogicTree, tree, d, 'lt.xml')
""", lib=True)

B('C14-bad-source-skipped', 'C14', SRC, [
    ("        src = nrml_to_hazardlib(src_nrml)\n",
     "        try:\n            src = nrml_to_hazardlib(src_nrml)\n"
     "        except ValueError:\n            if not source_ids:\n"
     "                raise\n            continue\n")],
  'a source that cannot be converted, after a valid one',
  'the invalid source is silently left out of the model', """
d = scratch()
f = put(d + '/m.xml', source_model(point('1'), point('2', lo=7.0, hi=5.0)))
raises(Exception, sources, f)
""", lib=True)

B('C14-open-ends-shared', 'C14', LT, [
    ("    _xmlschema = None\n", "    _xmlschema = None\n    open_ends = set()\n"),
    ("        self.open_ends = set()\n", "        self.open_ends.clear()\n")],
  'two logic trees being loaded at the same time',
  'the branch sets of one tree are attached below branches of the other one', """
from openquake.commonlib import logictree
d = scratch()
text = logic_tree([branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])],
                  [branchset('t', 'bGRRelative', [('c1', '0.1', '1.0')])])
class Tree(logictree.SourceModelLogicTree):
    def parse_branchinglevel(self, node, depth, validate):
        if depth == 1:  # another thread loads a tree
            logictree.SourceModelLogicTree(text, d, 'lt.xml', validate=False)
        logictree.SourceModelLogicTree.parse_branchinglevel(self, node, depth, validate)
same([r.lt_path for r in Tree(text, d, 'lt.xml', validate=False)], [('b1', 'c1')])
""", lib=True)

B('C14-weights-tolerance', 'C14', LT, (
    "        if weight_sum != 1.0:\n", "        if abs(weight_sum - 1) > Decimal('0.01'):\n"),
  'a logic tree whose weights sum up to slightly less than one',
  'the invalid tree is accepted', """
from openquake.commonlib import logictree
d = scratch()
tree = logic_tree([branchset('s', 'sourceModel', [
    ('b1', 'm.xml', '0.5'), ('b2', 'm.xml', '0.495')])])
raises(logictree.ValidationError, logictree.SourceModelLogicTree, tree, d, 'lt.xml',
       validate=False)
""", lib=True)

B('C14-branch-id-per-set', 'C14', LT, (
    "            if branch_id in self.branches:\n",
    "            if branch_id in [b.branch_id for b in branchset.branches]:\n"),
  'the same branch id in two branch sets',
  'the invalid tree is accepted', """
from openquake.commonlib import logictree
d = scratch()
tree = logic_tree([branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])],
                  [branchset('t', 'bGRRelative', [('b1', '0.1', '1.0')])])
raises(logictree.ValidationError, logictree.SourceModelLogicTree, tree, d, 'lt.xml',
       validate=False)
""", lib=True)


B('C14-gsim-weights', 'C14', LT, (
    "                    assert sum(weights) == 1, weights\n",
    "                    assert abs(float(sum(weights)) - 1) < 1e-2, weights\n"),
  'a ground shaking logic tree whose weights sum up to slightly less than one',
  'the invalid tree is accepted', """
from openquake.commonlib import logictree
d = scratch()
f = put(d + '/g.xml', logic_tree([branchset('s', 'gmpeModel', [
    ('b1', 'A', '0.5'), ('b2', 'B', '0.495')], applyToTectonicRegionType='Volcanic')]))
raises(AssertionError, logictree.GsimLogicTree, f, 'applyToTectonicRegionType', ['Volcanic'])
""", lib=True)

# ------------------------------------------------------------------ C15

INI = """
import openquake.commonlib.readini as ri
LT = logic_tree([branchset('s', 'sourceModel', [('b1', ' b.xml ', '0.5'), ('b2', 'a.xml', '0.5')])])
def parse(path):
    with open(path) as f:
        return ri.parse_config(f)
"""

B('C15-relative-base', 'C15', RI, (
    "    base_path = os.path.dirname(os.path.abspath(source.name))\n",
    "    base_path = os.path.dirname(source.name)\n"),
  'a configuration file opened with a relative path',
  'the input paths are relative to the current directory', INI + """
d = scratch()
put(d + '/jobs/job.ini', '[general]\\nexposure_file = e.xml\\n')
os.chdir(d)
same(parse('jobs/job.ini')['inputs']['exposure'], d + '/jobs/e.xml')
""", lib=True)

B('C15-coordinates', 'C15', RI, (
    "        coords.append('%s %s' % (lon, lat))\n",
    "        coords.append('%g %g' % (float(lon), float(lat)))\n"),
  'site coordinates with more than six significant digits',
  'the coordinates are rounded', INI + """
d = scratch()
put(d + '/s.csv', '-122.41941,37.77493\\n')
put(d + '/job.ini', '[general]\\nsites_csv = s.csv\\n')
same(parse(d + '/job.ini')['sites'], 'MULTIPOINT(-122.41941 37.77493)')
""", lib=True)

B('C15-file-anywhere', 'C15', RI, [
    ("            elif key.endswith('_file'):\n                input_type = key[:-5]\n",
     "            elif '_file' in key:\n                input_type = key.replace('_file', '')\n")],
  'a parameter whose name contains _file without ending with it',
  'an ordinary parameter disappears and becomes an input', INI + """
d = scratch()
put(d + '/job.ini', '[general]\\nkeep_files_open = true\\n')
same(parse(d + '/job.ini').get('keep_files_open'), 'true')
""", lib=True)

B('C15-paths-cache', 'C15', RI, [
    ("def _collect_source_model_paths(smlt):\n",
     "_collected = {}\n\n\ndef _collect_source_model_paths(smlt):\n"),
    ("    src_paths = []\n", "    key = os.path.basename(smlt)\n"
     "    if key in _collected:\n        return _collected[key]\n"
     "    src_paths = []\n"),
    ("    return sorted(set(src_paths))\n",
     "    _collected[key] = sorted(set(src_paths))\n    return _collected[key]\n")],
  'two jobs in different directories with logic trees of the same file name',
  'the second job gets the source models of the first', INI + """
d = scratch()
for i in '12':
    put(d + '/%s/job.ini' % i, '[general]\\nsource_model_logic_tree_file = lt.xml\\n')
    put(d + '/%s/lt.xml' % i, LT.replace('a.xml', 'a%s.xml' % i))
parse(d + '/1/job.ini')
same(parse(d + '/2/job.ini')['inputs']['source'], [d + '/2/a2.xml', d + '/2/b.xml'])
""", lib=True)

B('C15-shared-parser', 'C15', RI, [
    ("def parse_config(source):\n", "_cp = ConfigParser.ConfigParser()\n\n\n"
     "def parse_config(source):\n"),
    ("    cp = ConfigParser.ConfigParser()\n    cp.readfp(source)\n",
     "    cp = _cp\n    for sect in cp.sections():\n        cp.remove_section(sect)\n"
     "    cp.readfp(source)\n")],
  'two configurations parsed one after the other, with a [DEFAULT] section in the first, or by '
  'two threads at once', 'parameters of one job appear in the other', INI + """
d = scratch()
put(d + '/1.ini', '[DEFAULT]\\nseed = 42\\n[general]\\na = 1\\n')
put(d + '/2.ini', '[general]\\nb = 2\\n')
parse(d + '/1.ini')
ok('seed' not in parse(d + '/2.ini'))
""", lib=True)

B('C15-unique-sites', 'C15', RI, (
    "        coords.append('%s %s' % (lon, lat))\n",
    "        coord = '%s %s' % (lon, lat)\n        if coord not in coords:\n"
    "            coords.append(coord)\n"),
  'a sites file with a repeated line',
  'the repeated sites are dropped', INI + """
d = scratch()
put(d + '/s.csv', '1,2\\n3,4\\n1,2\\n')
put(d + '/job.ini', '[general]\\nsites_csv = s.csv\\n')
same(parse(d + '/job.ini')['sites'], 'MULTIPOINT(1 2, 3 4, 1 2)')
""", lib=True)

B('C15-first-branch-set', 'C15', RI, (
    "                src_paths.append(branch.text.strip())\n    return sorted(set(src_paths))\n",
    "                src_paths.append(branch.text.strip())\n            break\n"
    "    return sorted(set(src_paths))\n"),
  'a logic tree with two branch sets of source models',
  'the source models of the second branch set are missing', INI + """
d = scratch()
put(d + '/job.ini', '[general]\\nsource_model_logic_tree_file = lt.xml\\n')
put(d + '/lt.xml', logic_tree([
    branchset('s', 'sourceModel', [('b1', 'b.xml', '1.0')]),
    branchset('t', 'sourceModel', [('c1', 'c.xml', '1.0')])]))
same(parse(d + '/job.ini')['inputs']['source'], [d + '/b.xml', d + '/c.xml'])
""", lib=True)

B('C15-chdir', 'C15', RI, [
    ("    smlt = params['inputs'].get('source_model_logic_tree')\n    if smlt:\n",
     "    smlt = params['inputs'].get('source_model_logic_tree')\n    if smlt:\n"
     "        os.chdir(base_path)\n"),
    ("            os.path.join(base_path, src_path)\n", "            os.path.abspath(src_path)\n")],
  'a second configuration file opened with a relative path after a first one with a logic tree',
  'parsing a configuration changes the current directory of the process', INI + """
d = scratch()
put(d + '/1/job.ini', '[general]\\nsource_model_logic_tree_file = lt.xml\\n')
put(d + '/1/lt.xml', LT)
os.chdir(d)
parse(d + '/1/job.ini')
same(os.getcwd(), d)
""", lib=True)

B('C15-smlt-base', 'C15', RI, (
    "            os.path.join(base_path, src_path)\n",
    "            os.path.join(os.path.dirname(smlt), src_path)\n"),
  'a logic tree in another directory than the configuration file',
  'the source models are looked for beside the logic tree', INI + """
d = scratch()
put(d + '/job.ini', '[general]\\nsource_model_logic_tree_file = trees/lt.xml\\n')
put(d + '/trees/lt.xml', LT)
same(parse(d + '/job.ini')['inputs']['source'], [d + '/a.xml', d + '/b.xml'])
""", lib=True)

# ------------------------------------------------------------------ C16

WEIGHTED = """
from decimal import Decimal
import random
from openquake.commonlib import logictree
class W(object):
    def __init__(self, name, weight):
        self.name, self.weight = name, Decimal(weight)
        self.branch_id, self.child_branchset, self.value = name, None, name
class Rnd(object):
    def __init__(self, *values):
        self.values, self.used = list(values), 0
    def random(self):
        self.used += 1
        return self.values.pop(0)
"""

B('C16-float-sum', 'C16', LT, (
    "        acc += branch.weight\n", "        acc += float(branch.weight)\n"),
  'ten branches of weight 0.1 and a random number close to one',
  'no branch is found for the random number', WEIGHTED + """
ws = [W(str(i), '0.1') for i in range(10)]
same(logictree.sample_one(ws, Rnd(0.99999999999999995 - 1e-16)).name, '9')
same(logictree.sample_one(ws, Rnd(1 - 2. ** -53)).name, '9')
""", lib=True)

B('C16-distinct', 'C16', LT, (
    "    for _ in xrange(num_samples):\n"
    "        subsequence.append(sample_one(weighted_objects, rnd))\n",
    "    for _ in xrange(num_samples):\n"
    "        obj = sample_one(weighted_objects, rnd)\n"
    "        if obj in subsequence[-1:] and len(weighted_objects) > 2:\n"
    "            obj = sample_one(weighted_objects, rnd)\n"
    "        subsequence.append(obj)\n"),
  'the same object drawn twice in a row from three or more',
  'the draws are not independent', WEIGHTED + """
ws = [W('a', '0.5'), W('b', '0.25'), W('c', '0.25')]
same([w.name for w in logictree.sample(ws, 2, Rnd(0.1, 0.2, 0.6))], ['a', 'a'])
""", lib=True)

B('C16-one-draw-per-path', 'C16', LT, [
    ("        branchset = self.root_branchset\n        branch_ids = []\n"
     "        while branchset is not None:\n"
     "            [branch] = sample(branchset.branches, 1, rnd)\n",
     "        branchset = self.root_branchset\n        branch_ids = []\n"
     "        single = random.Random()\n        state = rnd.getstate()\n"
     "        while branchset is not None:\n"
     "            if len(branchset.branches) == 1:\n"
     "                # nothing to choose\n"
     "                single.setstate(state)\n"
     "                [branch] = sample(branchset.branches, 1, single)\n"
     "            else:\n"
     "                [branch] = sample(branchset.branches, 1, rnd)\n")],
  'a logic tree with a branch set of a single branch before one with several',
  'no number is drawn for a branch set of one branch, so the following choices change', """
import random
from openquake.commonlib import logictree
d = scratch()
tree = logictree.SourceModelLogicTree(logic_tree(
    [branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])],
    [branchset('t', 'bGRRelative', [('c1', '0.1', '0.5'), ('c2', '0.2', '0.5')])]),
    d, 'lt.xml', validate=False)
def expected(seed):
    rnd = random.Random(seed)
    rnd.random()
    return ['b1', 'c1' if rnd.random() < 0.5 else 'c2']
for seed in range(20):
    same(tree.sample_path(random.Random(seed)), ('m.xml', expected(seed)))
""", lib=True)

B('C16-heaviest-first', 'C16', LT, (
    "    for branch in branches:\n        acc += branch.weight\n",
    "    # look first at the most probable ones\n"
    "    for branch in sorted(branches, key=operator.attrgetter('weight'),\n"
    "                         reverse=True):\n        acc += branch.weight\n"),
  'a branch set that is not sorted by decreasing weight',
  'the slices of the random numbers are not in the order of the branches', WEIGHTED + """
ws = [W('a', '0.2'), W('b', '0.8')]
same(logictree.sample_one(ws, Rnd(0.1)).name, 'a')
""", lib=True)

B('C16-cached-slices', 'C16', LT, [
    ("def sample_one(branches, rnd):\n", "_slices = {}  # id of the sequence -> cumulated weights\n"
     "\n\ndef sample_one(branches, rnd):\n"),
    ("    acc = 0\n    for branch in branches:\n        acc += branch.weight\n",
     "    if id(branches) not in _slices:\n        acc, sums = 0, []\n"
     "        for branch in branches:\n            acc += branch.weight\n"
     "            sums.append(acc)\n        _slices[id(branches)] = sums\n"
     "    for acc, branch in zip(_slices[id(branches)], branches):\n")],
  'a sequence that is changed between two samples, or one at the address of another',
  'the weights of the previous content are used', WEIGHTED + """
ws = [W('a', '0.5'), W('b', '0.5')]
logictree.sample_one(ws, Rnd(0.1))
ws[:] = [W('a', '0.1'), W('b', '0.9')]
same(logictree.sample_one(ws, Rnd(0.3)).name, 'b')
""", lib=True)

B('C16-last-branch', 'C16', LT, (
    "            branchset = branch.child_branchset\n"
    "        modelname = self.root_branchset.get_branch_by_id(branch_ids[0]).value\n",
    "            branchset = branch.child_branchset\n"
    "        [modelname] = [self.branches[b].value for b in branch_ids\n"
    "                       if str(self.branches[b].value).endswith('.xml')] or [\n"
    "            self.branches[branch_ids[0]].value]\n"),
  'a source model whose name does not end with .xml, or another value ending so',
  'the model name is not the one of the first branch', """
import random
from openquake.commonlib import logictree
d = scratch()
tree = logictree.SourceModelLogicTree(logic_tree(
    [branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])],
    [branchset('t', 'sourceModel', [('c1', 'n.xml', '1.0')])]),
    d, 'lt.xml', validate=False)
same(tree.sample_path(random.Random(1)), ('m.xml', ['b1', 'c1']))
""", lib=True)

B('C16-empty-sample', 'C16', LT, (
    "    for _ in xrange(num_samples):\n        subsequence.append(sample_one(weighted_objects, rnd))\n",
    "    rnd_numbers = sorted(rnd.random() for _ in xrange(num_samples))\n"
    "    for number in rnd_numbers:\n"
    "        subsequence.append(sample_one(\n"
    "            weighted_objects, type('Rnd', (), dict(\n"
    "                random=lambda self: number))()))\n"),
  'a sample of at least two objects',
  'the sample is ordered by the random numbers, so its elements are not independent', WEIGHTED + """
ws = [W('a', '0.5'), W('b', '0.5')]
same([w.name for w in logictree.sample(ws, 2, Rnd(0.6, 0.1))], ['b', 'a'])
""", lib=True)

# ------------------------------------------------------------------ C17

TREE = """
import random
from openquake.commonlib import logictree
d = scratch()
TEXT = logic_tree(
    [branchset('s', 'sourceModel', [('b%d' % i, 'm%d.xml' % i, '0.25') for i in range(4)])],
    [branchset('t', 'bGRRelative', [('c1', '0.1', '0.5'), ('c2', '0.2', '0.5')])])
def tree(seed=0, n=8, text=TEXT):
    return logictree.SourceModelLogicTree(text, d, 'lt.xml', validate=False, seed=seed,
                                          num_samples=n)
"""

B('C17-generator-once', 'C17', LT, [
    ("        self.num_samples = num_samples\n        parser",
     "        self.num_samples = num_samples\n        self.rnd = random.Random(seed)\n        parser"),
    ("            rnd = random.Random(self.seed)\n", "            rnd = self.rnd\n")],
  'iterating a sampled logic tree twice',
  'the second iteration gives other realizations', TREE + """
t = tree()
same(list(t), list(t))
""", lib=True)

B('C17-global-seed', 'C17', LT, [
    ("            rnd = random.Random(self.seed)\n",
     "            random.seed(self.seed)\n            rnd = random\n")],
  'drawing from the global random generator while iterating',
  'the realizations change', TREE + """
ref = list(tree())
it = iter(tree())
got = [next(it)]
random.random()
same(got + list(it), ref)
""", lib=True)

B('C17-seed-zero', 'C17', LT, (
    "            rnd = random.Random(self.seed)\n",
    "            rnd = random.Random(self.seed or None)\n"),
  'a sampled logic tree with the seed zero',
  'the realizations are different every time', TREE + """
same(list(tree(0, 40)), list(tree(0, 40)))
""", lib=True)

B('C17-product-kept', 'C17', LT, [
    ("        # yield realizations for both sampling and full enumeration\n",
     "        # yield realizations for both sampling and full enumeration\n"
     "        if getattr(self, '_keys', None):\n"
     "            filter_keys, product = self._keys, self._product\n"
     "            for rlz in self._gen(filter_keys, product):\n"
     "                yield rlz\n"
     "            self._keys = None\n"
     "            return\n"),
    ("        for branches in itertools.product(*groups):\n            weight = 1\n",
     "        self._keys, self._product = filter_keys, itertools.product(*groups)\n"
     "        for rlz in self._gen(filter_keys, self._product):\n"
     "            yield rlz\n"
     "        self._keys = None\n\n"
     "    def _gen(self, filter_keys, product):\n"
     "        for branches in product:\n            weight = 1\n")],
  'iterating a ground shaking logic tree while another iteration is abandoned or still open',
  'the second iteration goes on where the first stopped', """
from openquake.commonlib import logictree
d = scratch()
f = put(d + '/g.xml', logic_tree([branchset('s', 'gmpeModel', [
    ('b1', 'A', '0.5'), ('b2', 'B', '0.5')], applyToTectonicRegionType='Volcanic')]))
t = logictree.GsimLogicTree(f, 'applyToTectonicRegionType', ['Volcanic'])
next(iter(t))
same([r.lt_path for r in t], [('b1',), ('b2',)])
""", lib=True)

B('C17-counter', 'C17', LT, (
    "            for _ in xrange(self.num_samples):\n                name, sm_lt_path",
    "            self._left = self.num_samples\n            while self._left:\n"
    "                self._left -= 1\n                name, sm_lt_path"),
  'two interleaved iterations of the same sampled tree',
  'the iterations have less or more realizations than asked for', TREE + """
t = tree(1, 4)
a, b = iter(t), iter(t)
next(a), next(a), next(b)
same(len(list(a)), 2)
same(len(list(b)), 3)
""", lib=True)

B('C17-class-seed', 'C17', LT, (
    "        self.seed = seed\n        self.num_samples = num_samples\n",
    "        self.__class__.seed = seed\n        self.num_samples = num_samples\n"),
  'a second logic tree with another seed loaded before the first is iterated',
  'the first tree is sampled with the seed of the second', TREE + """
ref = list(tree(1, 20))
t = tree(1, 20)
tree(2, 20)
same(list(t), ref)
""", lib=True)

B('C17-mutable-path', 'C17', LT, [
    ("        for path in self._enumerate_paths([]):\n            flat_path = []\n"
     "            weight = Decimal('1.0')\n",
     "        weight = Decimal('1.0')\n"
     "        for path in self._enumerate_paths([]):\n            flat_path = []\n"
     "            weight = weight * 0 + 1 if weight else weight\n")],
  'a path with a branch of weight zero before other paths',
  'the weight of all the following paths is zero', TREE + """
text = logic_tree([branchset('s', 'sourceModel', [
    ('b1', 'm.xml', '0.0'), ('b2', 'n.xml', '1.0')])])
same([float(r.weight) for r in tree(0, 0, text)], [0.0, 1.0])
""", lib=True)

B('C17-sample-distinct', 'C17', LT, (
    "            for _ in xrange(self.num_samples):\n"
    "                name, sm_lt_path = self.sample_path(rnd)\n"
    "                yield LtRealization(",
    "            seen = None\n"
    "            for _ in xrange(self.num_samples):\n"
    "                name, sm_lt_path = self.sample_path(rnd)\n"
    "                if (name, sm_lt_path) == seen:\n"
    "                    continue\n"
    "                seen = name, sm_lt_path\n"
    "                yield LtRealization("),
  'the same path sampled twice in a row',
  'fewer realizations than samples', TREE + """
same(len(list(tree(3, 60))), 60)
""", lib=True)

B('C17-gsim-groups', 'C17', LT, (
    "                self.branches, operator.attrgetter('bset')):\n"
    "            filter_keys.append(",
    "                sorted(self.branches, key=lambda b: -b.weight),\n"
    "                operator.attrgetter('bset')):\n"
    "            filter_keys.append("),
  'two branch sets whose branches have interleaving weights',
  'the paths of a ground shaking logic tree are repeated or incomplete', """
from openquake.commonlib import logictree
d = scratch()
f = put(d + '/g.xml', logic_tree(
    [branchset('s', 'gmpeModel', [('b1', 'A', '0.9'), ('b2', 'B', '0.1')],
               applyToTectonicRegionType='Volcanic')],
    [branchset('t', 'gmpeModel', [('c1', 'A', '0.5'), ('c2', 'B', '0.5')],
               applyToTectonicRegionType='Stable')]))
t = logictree.GsimLogicTree(f, 'applyToTectonicRegionType', ['Volcanic', 'Stable'])
same(sorted(r.lt_path for r in t),
     [('b1', 'c1'), ('b1', 'c2'), ('b2', 'c1'), ('b2', 'c2')])
""", lib=True)

# ------------------------------------------------------------------ C18

UNC = """
from openquake.commonlib import logictree
d = scratch()
def tree(*levels):
    return logictree.SourceModelLogicTree(logic_tree(
        [branchset('s', 'sourceModel', [('b1', 'm.xml', '1.0')])], *levels),
        d, 'lt.xml', validate=False)
def load(fun=None):
    return dict((s.source_id, s.mfd) for c in sources(d + '/m.xml', fun) for s in c.sources)
"""

B('C18-substring', 'C18', LT, (
    "            filters['applyToSources'] = filters['applyToSources'].split()\n",
    "            filters['applyToSources'] = filters['applyToSources'].strip()\n"),
  'a source whose id is a part of an id the uncertainty applies to',
  'the uncertainty is applied to the other source too', UNC + """
put(d + '/m.xml', source_model(point('1'), point('10')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')], applyToSources='10')])
m = load(t.make_apply_uncertainties(['b1', 'c1']))
same((m['1'].max_mag, m['10'].max_mag), (7.0, 7.5))
""", lib=True)

B('C18-once-per-id', 'C18', LT, [
    ("        def apply_uncertainties(source):\n"
     "            for branchset, value in branchsets_and_uncertainties:\n",
     "        done = set()\n\n"
     "        def apply_uncertainties(source):\n"
     "            if source.source_id in done:\n                return\n"
     "            done.add(source.source_id)\n"
     "            for branchset, value in branchsets_and_uncertainties:\n")],
  'the same function applied to a freshly parsed model again',
  'the second time the sources are not modified', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')])])
f = t.make_apply_uncertainties(['b1', 'c1'])
same([load(f)['1'].max_mag for _ in range(2)], [7.5, 7.5])
""", lib=True)

B('C18-shared-list', 'C18', LT, [
    ("        branchsets_and_uncertainties = []\n",
     "        branchsets_and_uncertainties = self._uncertainties\n"
     "        del branchsets_and_uncertainties[:]\n"),
    ("        self.source_types = set()\n        super(",
     "        self.source_types = set()\n        self._uncertainties = []\n        super(")],
  'two realizations of one tree processed at the same time',
  'the first function applies the uncertainties of the second realization', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '0.5'), ('c2', '-0.5', '0.5')])])
f = t.make_apply_uncertainties(['b1', 'c1'])
t.make_apply_uncertainties(['b1', 'c2'])
same(load(f)['1'].max_mag, 7.5)
""", lib=True)

B('C18-point-area', 'C18', LT, (
    "                    if (not isinstance(source, ohs.PointSource)\n"
    "                            or isinstance(source, ohs.AreaSource)):\n",
    "                    if not isinstance(source, ohs.PointSource):\n"),
  'an area source and an uncertainty for point sources',
  'the uncertainty is applied to the area source too', UNC + """
put(d + '/m.xml', source_model(point('1', tag='areaSource')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')], applyToSourceType='point')])
same(load(t.make_apply_uncertainties(['b1', 'c1']))['1'].max_mag, 7.0)
""", lib=True)

B('C18-order', 'C18', LT, (
    "        def apply_uncertainties(source):\n",
    "        # absolute values before increments\n"
    "        branchsets_and_uncertainties.sort(\n"
    "            key=lambda bu: bu[0].uncertainty_type.endswith('Relative'))\n\n"
    "        def apply_uncertainties(source):\n"),
  'a path with a relative uncertainty before an absolute one',
  'the uncertainties are not applied in path order', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')])],
         [branchset('u', 'maxMagGRAbsolute', [('e1', '8.0', '1.0')], applyToSources='1')])
same(load(t.make_apply_uncertainties(['b1', 'c1', 'e1']))['1'].max_mag, 8.0)
""", lib=True)

B('C18-repeated', 'C18', LT, (
    "            if not branchset.uncertainty_type == 'sourceModel':\n"
    "                branchsets_and_uncertainties.append((branchset, branch.value))\n",
    "            if not branchset.uncertainty_type == 'sourceModel' and not any(\n"
    "                    (bset.uncertainty_type, bset.filters, value) ==\n"
    "                    (branchset.uncertainty_type, branchset.filters,\n"
    "                     branch.value)\n"
    "                    for bset, value in branchsets_and_uncertainties):\n"
    "                branchsets_and_uncertainties.append((branchset, branch.value))\n"),
  'a path with the same uncertainty and value in two branch sets',
  'the second one is not applied', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')])],
         [branchset('u', 'maxMagGRRelative', [('e1', '0.5', '1.0')])])
same(load(t.make_apply_uncertainties(['b1', 'c1', 'e1']))['1'].max_mag, 8.0)
""", lib=True)

B('C18-rounded', 'C18', LT, (
    "            mfd.modify('set_max_mag', dict(value=value))\n",
    "            mfd.modify('set_max_mag', dict(value=round(value, 1)))\n"),
  'an absolute maximum magnitude with more than one decimal',
  'the magnitude is rounded', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRAbsolute', [('c1', '7.25', '1.0')], applyToSources='1')])
same(load(t.make_apply_uncertainties(['b1', 'c1']))['1'].max_mag, 7.25)
""", lib=True)

B('C18-popped', 'C18', LT, (
    "            for branchset, value in branchsets_and_uncertainties:\n"
    "                branchset.apply_uncertainty(value, source)\n",
    "            for bu in list(branchsets_and_uncertainties):\n"
    "                bu[0].apply_uncertainty(bu[1], source)\n"
    "                if bu[0].filters.get('applyToSources') == [\n"
    "                        source.source_id]:\n"
    "                    branchsets_and_uncertainties.remove(bu)  # done\n"),
  'the function of a path with an uncertainty for one source, used for two loads',
  'the second load misses the uncertainty', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRAbsolute', [('c1', '8.0', '1.0')], applyToSources='1')])
f = t.make_apply_uncertainties(['b1', 'c1'])
same([load(f)['1'].max_mag for _ in range(2)], [8.0, 8.0])
""", lib=True)

B('C18-path-consumed', 'C18', LT, (
    "        branch_ids = list(branch_ids[::-1])\n",
    "        branch_ids.reverse()\n"),
  'the list of branch ids used again after a function was made from it',
  'the caller finds its path consumed', UNC + """
put(d + '/m.xml', source_model(point('1')))
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')])])
path = ['b1', 'c1']
t.make_apply_uncertainties(path)
same(path, ['b1', 'c1'])
""", lib=True)

B('C18-characteristic', 'C18', LT, (
    "                    if not isinstance(source, ohs.CharacteristicFaultSource):\n",
    "                    if not source.__class__.__name__.endswith('FaultSource'):\n"),
  'a simple fault source and an uncertainty for characteristic faults',
  'the uncertainty is applied to every kind of fault', UNC + """
from openquake.hazardlib import mfd
src = hazard('SimpleFaultSource', '1', mfd.TruncatedGRMFD(
    a_val=2.0, b_val=1.0, min_mag=5.0, max_mag=7.0, bin_width=0.5),
    fault_trace=None, dip=45., rake=0.)
t = tree([branchset('t', 'maxMagGRRelative', [('c1', '0.5', '1.0')],
                    applyToSourceType='characteristicFault')])
t.make_apply_uncertainties(['b1', 'c1'])(src)
same(src.mfd.max_mag, 7.0)
""", lib=True)

# ------------------------------------------------------------------ C19

SPLIT = """
from openquake.commonlib.source import SourceCollector, split_source
from openquake.hazardlib import mfd, source, geo
def fault(ident, rates, trt='Volcanic'):
    return hazard('SimpleFaultSource', ident, mfd.EvenlyDiscretizedMFD(
        min_mag=5.0, bin_width=0.5, occurrence_rates=rates), trt,
        fault_trace=None, dip=45., rake=0.)
def rates(blocks):
    return [[s.mfd.occurrence_rates for s in b] for b in blocks]
"""

B('C19-integer-rates', 'C19', SRC, (
    "        new_occur_rates = [float(x) / num_points\n",
    "        new_occur_rates = [x / num_points\n"),
  'an area source with integer occurrence rates',
  'the rates of the points are truncated to zero', SPLIT + """
d = scratch()
put(d + '/m.xml', source_model(point('1', mfd=incremental([1.0]), tag='areaSource')))
[coll] = sources(d + '/m.xml')
[src] = coll.sources
src.mfd.occurrence_rates = [1]
tot = sum(s.mfd.occurrence_rates[0] for s in split_source(src, 5.))
ok(abs(tot - 1) < 1e-9, tot)
""", lib=True)

B('C19-limit', 'C19', G, (
    "        elif ws.weight + w > max_weight or k != prev_kind:\n",
    "        elif ws.weight + w >= max_weight or k != prev_kind:\n"),
  'items whose total weight is exactly the limit',
  'the block is ended before an item that would fit', """
from openquake.commonlib.general import block_splitter
same([list(b) for b in block_splitter('abcd', 2)], [['a', 'b'], ['c', 'd']])
""", lib=True)

B('C19-tiny-rates', 'C19', SRC, (
    "        if rate:  # ignore zero occurency rate\n",
    "        if rate > 1E-9:  # ignore zero occurency rate\n"),
  'a fault with a very small occurrence rate',
  'the rate disappears when the source is split', SPLIT + """
same(len(list(split_source(fault('1', [1e-3, 1e-12]), 10.))), 2)
""", lib=True)

B('C19-shared-copy', 'C19', SRC, [
    ("    i = 0  # split source index\n", "    i = 0  # split source index\n"
     "    new_src = copy.copy(src)\n"),
    ("            new_src = copy.copy(src)\n", "")],
  'a fault source split in several pieces that are kept together',
  'all the pieces are the same object', SPLIT + """
same([s.mfd.occurrence_rates for s in split_source(fault('1', [0.1, 0.2]), 10.)
      if True], [[0.1], [0.2]])
same([s.mfd.occurrence_rates for s in list(split_source(fault('1', [0.1, 0.2]), 10.))],
     [[0.1], [0.2]])
""", lib=True)

B('C19-kept-list', 'C19', SRC, (
    "        srcs = []\n        tot_sources = 0\n",
    "        srcs = self.__dict__.setdefault('_kept', [])\n        tot_sources = 0\n"),
  'a stream of blocks that is abandoned and started again',
  'the pieces of the abandoned stream are in the collector twice', SPLIT + """
c = SourceCollector('Volcanic', [fault('1', [0.1]), fault('2', [0.2])])
next(iter(c.gen_blocks(lambda s: [1], 101, 10.)))
c = SourceCollector('Volcanic', [fault('1', [0.1]), fault('2', [0.2])])
it = iter(c.gen_blocks(lambda s: [1], 101, 10.))
next(it)
del it
list(c.gen_blocks(lambda s: [1], 101, 10.))
same(len(c.sources), 2)
""", lib=True)

B('C19-kind-identity', 'C19', G, (
    "        elif ws.weight + w > max_weight or k != prev_kind:\n",
    "        elif ws.weight + w > max_weight or k is not prev_kind:\n"),
  'kinds that are equal without being the same object',
  'a block is ended before an item of the same kind', """
from openquake.commonlib.general import block_splitter
same([list(b) for b in block_splitter('abc', 9, kind=lambda i: ('k', len(i)))], [['a', 'b', 'c']])
""", lib=True)

B('C19-area-depth', 'C19', SRC, (
    "        new_a_val = math.log10(10 ** area_mfd.a_val / float(num_points))\n",
    "        new_a_val = area_mfd.a_val - math.log10(max(num_points - 1, 1))\n"),
  'an area source with a Gutenberg-Richter distribution and at least two grid points',
  'the points have more seismicity than the area', SPLIT + """
d = scratch()
put(d + '/m.xml', source_model(point('1', tag='areaSource')))
[coll] = sources(d + '/m.xml')
[src] = coll.sources
tot = sum(10 ** s.mfd.a_val for s in split_source(src, 5.))
ok(abs(tot - 100) < 1e-6, tot)
""", lib=True)

B('C19-kind-change', 'C19', G, (
    "        elif w == 0:  # ignore items with 0 weight\n            continue\n",
    "        elif w == 0:  # ignore items with 0 weight\n"
    "            prev_kind = k\n            continue\n"),
  'an item without weight of another kind between two items',
  'items of different kinds in one block, or a block ended without reason', """
from openquake.commonlib.general import block_splitter
items = [('a', 1), ('b', 0), ('b', 1)]
same([list(b) for b in block_splitter(items, 9, lambda i: i[1], lambda i: i[0])],
     [[('a', 1)], [('b', 1)]])
""", lib=True)

B('C19-int-weight', 'C19', G, (
    "            ws.append((item, w))\n        prev_kind = k\n",
    "            ws.append((item, int(w)))\n        prev_kind = k\n"),
  'fractional weights', 'the blocks exceed the limit', """
from openquake.commonlib.general import block_splitter
same([list(b) for b in block_splitter('abcd', 1, lambda i: 0.5)], [['a', 'b'], ['c', 'd']])
""", lib=True)


# ------------------------------------------------------------------ C20

B('C20-weight-twice', 'C20', G, (
    "            new_ws = WeightedSequence([(item, w)])\n",
    "            new_ws = WeightedSequence([(item, weight(item))])\n"),
  'the weight function of a collector, which counts the ruptures',
  'the ruptures of the first source of each block are counted twice', SPLIT + """
c = SourceCollector('Volcanic', [fault('1', [0.1]), fault('2', [0.2])])
n = sum(s.count_ruptures() for s in c.sources)
list(c.gen_blocks(lambda s: [1], 1, 10.))
same(c.num_ruptures, n)
""", lib=True)

B('C20-zero-magnitude', 'C20', SRC, (
    "        if prev_min_mag is None or min_mag < prev_min_mag:\n",
    "        if not prev_min_mag or min_mag < prev_min_mag:\n"),
  'a source with minimum magnitude zero followed by another one',
  'the minimum magnitude is the one of the last source', SPLIT + """
def src(ident, lo):
    return hazard('SimpleFaultSource', ident, mfd.EvenlyDiscretizedMFD(
        min_mag=lo, bin_width=0.5, occurrence_rates=[0.1]),
        fault_trace=None, dip=45., rake=0.)
same(SourceCollector('Volcanic', [src('1', 0.0), src('2', 5.0)]).min_mag, 0.0)
""", lib=True)

B('C20-filter-in-place', 'C20', SRC, (
    "        return self.__class__(self.trt, srcs)\n",
    "        if len(srcs) == len(self.sources):\n"
    "            return self  # nothing was discarded\n"
    "        return self.__class__(self.trt, srcs)\n"),
  'a filter that accepts all the sources, then a change of the returned collector',
  'the original collector changes', SPLIT + """
c = SourceCollector('Volcanic', [fault('1', [0.1])])
n = c.filter_sources(lambda s: [1])
n.update(fault('2', [0.1]))
same(len(c.sources), 1)
""", lib=True)

B('C20-filter-keeps-range', 'C20', SRC, (
    "        return self.__class__(self.trt, srcs)\n",
    "        return self.__class__(self.trt, srcs, self.num_ruptures,\n"
    "                              self.min_mag, self.max_mag)\n"),
  'filtering out the source with the smallest or largest magnitude',
  'the new collector has the magnitude range of the discarded sources', SPLIT + """
def src(ident, lo):
    return hazard('SimpleFaultSource', ident, mfd.EvenlyDiscretizedMFD(
        min_mag=lo, bin_width=0.5, occurrence_rates=[0.1]),
        fault_trace=None, dip=45., rake=0.)
c = SourceCollector('Volcanic', [src('1', 4.0), src('2', 5.0)])
same(c.filter_sources(lambda s: None if s.source_id == '1' else [1]).min_mag, 5.0)
""", lib=True)

B('C20-early-replacement', 'C20', SRC, [
    ("        for src in self.sources:\n            sites = src_filter(src)\n",
     "        sources, self.sources = self.sources, srcs\n"
     "        for src in sources:\n            sites = src_filter(src)\n"),
    ("        self.sources = srcs  # throw away unfiltered sources\n", "")],
  'a stream of blocks that is abandoned, or whose filter fails, before its end',
  'the collector has lost the sources not reached yet', SPLIT + """
c = SourceCollector('Volcanic', [fault('1', [0.1]), fault('2', [0.2])])
it = iter(c.gen_blocks(lambda s: [1], 1, 10.))
next(it)
del it
same(sorted(s.source_id for s in c.sources), ['1', '2'])
""", lib=True)

B('C20-order-by-size', 'C20', SRC, (
    "        if num_sources == other_sources:\n            return self.trt < other.trt\n"
    "        return num_sources < other_sources\n",
    "        if num_sources == other_sources:\n            return self.trt < other.trt\n"
    "        return (num_sources, self.num_ruptures) < (\n"
    "            other_sources + (self.num_ruptures > 0), other.num_ruptures)\n"),
  'ordering collectors after ruptures have been counted',
  'the order depends on the ruptures', SPLIT + """
a = SourceCollector('A', [fault('1', [0.1], 'A'), fault('2', [0.1], 'A')], 7)
b = SourceCollector('B', [fault('1', [0.1], 'B')], 9)
ok(not a < b)
""", lib=True)

B('C20-total-dropped', 'C20', SRC, (
    "            else:\n                tot_sources += 1\n",
    "            elif srcs:\n                tot_sources += 1\n"),
  'a dropped source before the first kept one',
  'the total of filtered_sources does not count it', SPLIT + """
c = SourceCollector('Volcanic', [fault('1', [0.1]), fault('2', [0.2])])
list(c.gen_blocks(lambda s: None if s.source_id == '1' else [1], 1000, 10.))
same(c.filtered_sources, (1, 2))
""", lib=True)

B('C20-min-elif', 'C20', SRC, (
    "            self.min_mag = min_mag\n        prev_max_mag = self.max_mag\n",
    "            self.min_mag = min_mag\n"
    "            if len(self.sources) > 1 and self.max_mag is not None:\n"
    "                return\n"
    "        prev_max_mag = self.max_mag\n"),
  'a later source that has both the smallest minimum and the largest maximum magnitude',
  'the maximum magnitude is not updated', SPLIT + """
def src(ident, lo, n):
    return hazard('SimpleFaultSource', ident, mfd.EvenlyDiscretizedMFD(
        min_mag=lo, bin_width=0.5, occurrence_rates=[0.1] * n),
        fault_trace=None, dip=45., rake=0.)
c = SourceCollector('Volcanic', [src('1', 5.0, 1), src('2', 4.0, 9)])
same((c.min_mag, c.max_mag), (4.0, src('2', 4.0, 9).mfd.get_min_max_mag()[1]))
""", lib=True)

# ------------------------------------------------------------------ C21

TABLE = """
from openquake.commonlib import record
class Loc(record.Record):
    id = record.Field(str)
    lon = record.Field(str)
    lat = record.Field(str)
    pkey = record.Unique('id')
    place = record.Unique('lon', 'lat')
def table(*rows):
    return record.Table(Loc, [Loc(*r) for r in rows])
def rows(tbl):
    return [tuple(r) for r in tbl]
"""

B('C21-delete-pkey', 'C21', RC, (
    "            key = getattr(self._records[i], name)\n            del unique.dict[key]\n"
    "        del self._records[i]\n",
    "            key = getattr(self._records[i], name)\n"
    "            if unique.dict[key] is self._records[i]:\n"
    "                unique.dict.pop(key if name == 'pkey' else None, None)\n"
    "        del self._records[i]\n"),
  'inserting again, after a deletion, a record with the secondary key of the deleted one',
  'the record is rejected as a duplicate', TABLE + """
t = table(('1', '2', '3'))
del t[0]
t.append(Loc('4', '2', '3'))
same(rows(t), [('4', '2', '3')])
""")

B('C21-key-strip', 'C21', RC, (
    "        if rec is None:\n            return self\n"
    "        return tuple(rec[f] for f in self.names)\n\n"
    "    def __repr__(self):\n        return '<Unique%s>'",
    "        if rec is None:\n            return self\n"
    "        return tuple(rec[f].rstrip('0') for f in self.names)\n\n"
    "    def __repr__(self):\n        return '<Unique%s>'"),
  'keys that differ in the trailing zeros only', 'different records are taken for duplicates',
  TABLE + """
same(len(table(('1', '2', '3'), ('10', '4', '5'))), 2)
""")

B('C21-lookup-cache', 'C21', RC, (
    "        return self._unique_data['pkey'].dict[pkey]\n",
    "        cache = self.__dict__.setdefault('_found', {})\n"
    "        if pkey not in cache:\n"
    "            cache[pkey] = self._unique_data['pkey'].dict[pkey]\n"
    "        return cache[pkey]\n"),
  'looking up a key, replacing or deleting its record, looking it up again',
  'the lookup returns a record that is no longer in the table', TABLE + """
t = table(('1', '2', '3'))
t.getrecord('1')
del t[0]
raises(KeyError, t.getrecord, '1')
""")

B('C21-bulk', 'C21', RC, (
    "        for rec in records:\n            self.append(rec)\n",
    "        for rec in records:\n            self._records.append(rec)\n"
    "            for name, unique in self._unique_data.iteritems():\n"
    "                other = unique.dict.setdefault(getattr(rec, name), rec)\n"
    "                if other is not rec and name == 'pkey':\n"
    "                    raise KeyError('Duplicated record:%s' % rec)\n"),
  'a table built from records that repeat a secondary key',
  'the table has two records with the same unique key', TABLE + """
raises(KeyError, table, ('1', '2', '3'), ('4', '2', '3'))
""")

B('C21-joined-key', 'C21', RC, (
    "        if rec is None:\n            return self\n"
    "        return tuple(rec[f] for f in self.names)\n\n"
    "    def __repr__(self):\n        return '<Unique%s>'",
    "        if rec is None:\n            return self\n"
    "        if len(self.names) > 1:\n"
    "            return (' '.join(rec[f] for f in self.names),)\n"
    "        return tuple(rec[f] for f in self.names)\n\n"
    "    def __repr__(self):\n        return '<Unique%s>'"),
  'keys of two columns whose joined values agree', 'different records are taken for duplicates',
  TABLE + """
same(len(table(('1', 'a b', 'c'), ('2', 'a', 'b c'))), 2)
""")

B('C21-insert-position', 'C21', RC, (
    "        self._records.insert(position, rec)\n",
    "        self._records.insert(min(abs(position), len(self._records)), rec)\n"),
  'an insertion at a negative position', 'the record goes to the wrong place', TABLE + """
t = table(('1', '1', '1'), ('2', '2', '2'), ('3', '3', '3'))
t.insert(-1, Loc('4', '4', '4'))
same([r[0] for r in t], ['1', '2', '4', '3'])
""")


B('C21-replace-same-key', 'C21', RC, (
    "        self._records[i] = new_record\n",
    "        self._records[i].row[:] = new_record.row\n"),
  'a replaced record that is kept by the caller, or a lookup after a replacement',
  'the table keeps the old object, with the new content, and the lookup gives another one',
  TABLE + """
t = table(('1', '2', '3'))
old, new = t[0], Loc('1', '5', '6')
t[0] = new
ok(t[0] is new and t.getrecord('1') is t[0])
same(tuple(old), ('1', '2', '3'))
""")

# ------------------------------------------------------------------ C22

SETS = """
from openquake.commonlib import record
class Loc(record.Record):
    id = record.Field(str)
    kind = record.Field(str)
    pkey = record.Unique('id')
    sort = record.Unique('id', 'kind')
class Asset(record.Record):
    id = record.Field(str)
    loc = record.Field(str)
    kind = record.Field(str)
    pkey = record.Unique('id')
    fk_loc = record.ForeignKey(Loc.pkey, 'loc')
    fk_sort = record.ForeignKey(Loc.sort, 'loc', 'kind')
class Conv(object):
    @classmethod
    def recordtypes(cls):
        return [Loc, Asset]
def tset():
    return record.TableSet(Conv)
def rows(ts):
    return [tuple(r) for r in ts.tableLoc], [tuple(r) for r in ts.tableAsset]
"""

B('C22-materialised', 'C22', RC, (
    "        for rec in recs:\n            self.insert(rec)\n",
    "        for rec in list(recs):\n            self.insert(rec)\n"),
  'a stream of records that fails after some of them',
  'nothing of the stream is inserted', SETS + """
def stream():
    yield Loc('1', 'a')
    raise IOError('disk')
ts = tset()
raises(IOError, ts.insert_all, stream())
same(rows(ts), ([('1', 'a')], []))
""")

B('C22-empty-key', 'C22', RC, (
    "            if not fkvalues in self.fkdict[fkey].dict:\n",
    "            if any(fkvalues) and not fkvalues in self.fkdict[fkey].dict:\n"),
  'a record with an empty foreign key', 'a dangling record is inserted', SETS + """
raises(record.ForeignKeyError, tset().insert, Asset('1', '', ''))
""")

B('C22-known-keys', 'C22', RC, (
    "            fkvalues = getattr(rec, fkey.name)\n"
    "            if not fkvalues in self.fkdict[fkey].dict:\n",
    "            fkvalues = getattr(rec, fkey.name)\n"
    "            known = self.__dict__.setdefault('_known', set())\n"
    "            if (fkey, fkvalues) in known:\n                continue\n"
    "            known.add((fkey, fkvalues))\n"
    "            if not fkvalues in self.fkdict[fkey].dict:\n"),
  'a second record with a key that was rejected, or whose target was deleted',
  'a dangling record is inserted', SETS + """
ts = tset()
for _ in range(4):
    raises(record.ForeignKeyError, ts.insert, Asset('1', 'x', 'a'))
""")

B('C22-insert-first', 'C22', RC, (
    "        self.check_fk(rec)\n        tbl = getattr(self, 'table' + rec.__class__.__name__)\n"
    "        tbl.append(rec)\n",
    "        tbl = getattr(self, 'table' + rec.__class__.__name__)\n"
    "        tbl.append(rec)\n        self.check_fk(rec)\n"),
  'going on after the foreign-key error', 'the dangling record is in the table', SETS + """
ts = tset()
raises(record.ForeignKeyError, ts.insert, Asset('1', 'x', 'a'))
same(rows(ts), ([], []))
""")

B('C22-first-fk', 'C22', RC, (
    "                raise ForeignKeyError(\n"
    "                    'Missing record in table %s corresponding to the keys %s'\n"
    "                    % (fkey.unique.recordtype.__name__, fkvalues))\n",
    "                raise ForeignKeyError(\n"
    "                    'Missing record in table %s corresponding to the keys %s'\n"
    "                    % (fkey.unique.recordtype.__name__, fkvalues))\n"
    "            if len(fkvalues) == 1 and fkey.unique.name == 'pkey':\n"
    "                break  # the referenced record is known\n"),
  'a record with two foreign keys, only one of which refers to an existing record',
  'a dangling record is inserted', SETS + """
for _ in range(1):
    ts = tset()
    ts.insert(Loc('1', 'a'))
    names = [f.name for f in Asset.get_descriptors(record.ForeignKey)]
    class Two(record.Record):
        id = record.Field(str)
        one = record.Field(str)
        two = record.Field(str)
        pkey = record.Unique('id')
        fk_one = record.ForeignKey(Loc.pkey, 'one')
        fk_two = record.ForeignKey(Loc.pkey, 'two')
    class C2(object):
        @classmethod
        def recordtypes(cls):
            return [Loc, Two]
    ts = record.TableSet(C2)
    ts.insert(Loc('1', 'a'))
    raises(record.ForeignKeyError, ts.insert, Two('1', '1', 'x'))
    raises(record.ForeignKeyError, ts.insert, Two('1', 'x', '1'))
""")

B('C22-shared-keys', 'C22', RC, [
    ("        self.fkdict = {}\n", ""),
    ("    A set of tables associated to the same converter\n    \"\"\"\n",
     "    A set of tables associated to the same converter\n    \"\"\"\n    fkdict = {}\n\n")],
  'two table sets of the same converter', 'the foreign keys are checked in the wrong set', SETS + """
a, b = tset(), tset()
b.insert(Loc('1', 'a'))
raises(record.ForeignKeyError, a.insert, Asset('1', '1', 'a'))
""")

B('C22-skip-duplicates', 'C22', RC, (
    "        for rec in recs:\n            self.insert(rec)\n",
    "        last = None\n        for rec in recs:\n"
    "            if last is not None and type(rec) is type(last) and rec == last:\n"
    "                continue  # repeated line\n"
    "            self.insert(rec)\n            last = rec\n"),
  'a stream with the same record twice in a row', 'the duplicate is silently ignored', SETS + """
raises(KeyError, tset().insert_all, [Loc('1', 'a'), Loc('1', 'a')])
""")

B('C22-sorted', 'C22', RC, (
    "        for rec in recs:\n            self.insert(rec)\n",
    "        pending = []\n        for rec in recs:\n            try:\n"
    "                self.insert(rec)\n            except ForeignKeyError:\n"
    "                pending.append(rec)  # its target may come later\n"
    "        for rec in pending:\n            self.insert(rec)\n"),
  'a stream with a dangling record before other records',
  'the records after the dangling one are inserted', SETS + """
ts = tset()
raises(record.ForeignKeyError, ts.insert_all, [Asset('1', 'x', 'a'), Loc('1', 'a')])
same(rows(ts), ([], []))
""")


B('C22-default-tables', 'C22', RC, (
    "    def __init__(self, convertertype, tables=None):\n        self.convertertype = convertertype\n",
    "    def __init__(self, convertertype, tables=[]):\n        self.convertertype = convertertype\n"
    "        if not tables:\n            tables.extend(\n"
    "                Table(rt, [], ordinal) for ordinal, rt in enumerate(\n"
    "                    convertertype.recordtypes()))\n"
    "        elif [t.recordtype for t in tables\n"
    "              ] != list(convertertype.recordtypes()):\n            tables = None\n"),
  'two table sets of the same converter', 'they share their tables', SETS + """
a, b = tset(), tset()
b.insert(Loc('1', 'a'))
same(rows(a), ([], []))
""")
