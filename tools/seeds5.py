# Ground motion logic trees, and more bugs in the sources, loaders and tables
LT, S = 'logictree', 'source'

GMPE = '''
from openquake.commonlib import logictree
d = scratch()
TRTS = ['Volcanic', 'Stable Continental Crust', 'Active Shallow Crust']
NAMES = ['SadighEtAl1997', 'ToroEtAl2002', 'BooreAtkinson2008', 'ChiouYoungs2008']
def text(sets):
    return logic_tree(*[[branchset('s%d' % i, 'gmpeModel', brs, applyToTectonicRegionType=trt)]
                        for i, (trt, brs) in enumerate(sets)])
def two(i, a=0, b=1):
    return [('b%d1' % i, NAMES[a], '0.5'), ('b%d2' % i, NAMES[b], '0.5')]
def gmpe(trts, sets, **kw):
    return logictree.GMPELogicTree(trts, text(sets), d, 'lt.xml', validate=False, **kw)
def gsim(trts, sets):
    return logictree.GsimLogicTree(put(d + '/g.xml', text(sets)), 'applyToTectonicRegionType', trts)
def names(m):
    return dict((k, getattr(v, '__name__', v)) for k, v in m.items())
'''

B('C29-first-branch-cache', 'C29', LT, [
    ("        self.defined_tectonic_region_types = set()\n        super",
     "        self.defined_tectonic_region_types = set()\n        self.resolved = {}\n        super"),
    ("        branchset = self.root_branchset\n        trt_to_gsim = {}\n",
     "        branchset = self.root_branchset\n        key = branch_ids[-1]\n"
     "        if key in self.resolved:\n            return self.resolved[key].copy()\n"
     "        trt_to_gsim = {}\n"),
    ("        return trt_to_gsim\n\n    def parse_uncertainty_value(self, node, branchset, classname):",
     "        self.resolved[key] = trt_to_gsim.copy()\n        return trt_to_gsim\n\n"
     "    def parse_uncertainty_value(self, node, branchset, classname):")],
  'two paths of a ground motion tree that end with the same branch are resolved',
  'the second one gets the models of the first', GMPE + '''
t = gmpe(TRTS[:2], [(TRTS[0], two(0)), (TRTS[1], two(1))])
for a in '12':
    same(names(t.make_trt_to_gsim(['b0' + a, 'b11'])),
         {TRTS[0]: NAMES[int(a) - 1], TRTS[1]: NAMES[0]})
''', lib=True)

B('C29-shared-mapping', 'C29', LT, [
    ("        self.defined_tectonic_region_types = set()\n        super",
     "        self.defined_tectonic_region_types = set()\n        self.resolved = {}\n        super"),
    ("        branchset = self.root_branchset\n        trt_to_gsim = {}\n",
     "        branchset = self.root_branchset\n        key = tuple(branch_ids)\n"
     "        if key in self.resolved:\n            return self.resolved[key]\n"
     "        self.resolved[key] = trt_to_gsim = {}\n")],
  'the caller changes the mapping of a path and resolves the same path again',
  'the change is still there', GMPE + '''
t = gmpe(TRTS[:1], [(TRTS[0], two(0))])
t.make_trt_to_gsim(['b01']).clear()
same(names(t.make_trt_to_gsim(['b01'])), {TRTS[0]: NAMES[0]})
''', lib=True)

B('C29-cached-failure', 'C29', LT, [
    ("        self.defined_tectonic_region_types = set()\n        super",
     "        self.defined_tectonic_region_types = set()\n        self.resolved = {}\n        super"),
    ("        branchset = self.root_branchset\n        trt_to_gsim = {}\n",
     "        branchset = self.root_branchset\n        key = len(branch_ids)\n"
     "        trt_to_gsim = self.resolved.setdefault(key, {})\n"
     "        trt_to_gsim.clear()\n")],
  'the mapping of one path is kept while another path is resolved',
  'the first mapping changes into the second', GMPE + '''
t = gmpe(TRTS[:1], [(TRTS[0], two(0))])
first = t.make_trt_to_gsim(['b01'])
t.make_trt_to_gsim(['b02'])
same(names(first), {TRTS[0]: NAMES[0]})
''', lib=True)

B('C29-region-prefix', 'C29', LT, (
    "        return (attrs['applyToTectonicRegionType']\n"
    "                not in self.tectonic_region_types)\n",
    "        trt = attrs['applyToTectonicRegionType'].lower()\n"
    "        return trt not in [t.lower() for t in self.tectonic_region_types]\n"),
  'a tree with two regions whose names differ by the case only, restricted to one of them',
  'the realizations have models for the other region too', GMPE + '''
t = gmpe(['Volcanic'], [('Volcanic', two(0)), ('volcanic', two(1))])
same(len(list(t)), 2)
''', lib=True)

B('C29-distinct-models', 'C29', LT, (
    "            num[branchset['branchSetID']] = len(list(branches))\n",
    "            num[branchset['branchSetID']] = len(\n"
    "                set(br.uncertainty for br in branches))\n"),
  'a branch set with the same model on two branches', 'the number of paths is too small', GMPE + '''
t = gsim(TRTS[:1], [(TRTS[0], two(0, 1, 1))])
same((t.get_num_paths(), len(list(t))), (2, 2))
''', lib=True)

B('C29-shared-value', 'C29', LT, (
    "            weight = 1\n            lt_path = []\n            value = {}\n",
    "            weight = 1\n            lt_path = []\n"
    "            value = self.__dict__.setdefault('_value', {})\n"),
  'realizations of a ground motion tree kept while the next ones are generated',
  'all of them have the models of the last one', GMPE + '''
same([r.value for r in list(gsim(TRTS[:1], [(TRTS[0], two(0))]))],
     [{TRTS[0]: NAMES[0]}, {TRTS[0]: NAMES[1]}])
''', lib=True)

B('C29-model-branch', 'C29', LT, [
    ("                lt_path.append(branch.id)\n                weight *= branch.weight\n",
     "                weight *= branch.weight\n"),
    ("                value[fkey] = branch.uncertainty\n",
     "                value[fkey] = branch.uncertainty\n"
     "                lt_path.append(min(\n"
     "                    b.id for b in self.branches if b.bset is branch.bset and\n"
     "                    b.uncertainty == branch.uncertainty))\n")],
  'a branch set with the same model on two branches',
  'two realizations have the same path', GMPE + '''
t = gsim(TRTS[:1], [(TRTS[0], two(0, 1, 1))])
same(sorted(r.lt_path for r in t), [('b01',), ('b02',)])
''', lib=True)

B('C29-no-branches', 'C29', LT, (
    "        if filter_keys and not self.branches:\n",
    "        if len(filter_keys) > 1 and not self.branches:\n"),
  'a single region that the file knows nothing of',
  'a tree with one realization without models instead of an error', GMPE + '''
raises(logictree.InvalidLogicTree, gsim, ['Induced'], [(TRTS[0], two(0))])
''', lib=True)
