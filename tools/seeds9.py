# Validation of logic trees
LT = 'logictree'

KIT = r'''
from openquake.commonlib import logictree as lt
V = lt.ValidationError
def model(d, name, *sources):
    put('%s/%s' % (d, name), source_model(*sources))
def sm(*branches, **kw):
    return branchset('s', 'sourceModel', list(branches), **kw)
def load(d, *sets, **kw):
    return lt.SourceModelLogicTree(logic_tree(*[x if isinstance(x, list) else [x] for x in sets]),
                                   d, 'lt.xml', **kw)
def refused(d, *sets, **kw):
    try:
        load(d, *sets, **kw)
    except V as e:
        return e.lineno
    return 'accepted'
def paths(t):
    return [r.lt_path for r in t]
ONE = sm(('b1', 'm.xml', '1.0'))
def rel(ident='t', ids=('c1',), **kw):
    w = {1: ['1.0'], 2: ['0.5', '0.5']}[len(ids)]
    return branchset(ident, 'bGRRelative', [(i, '0.1', x) for i, x in zip(ids, w)], **kw)
def gmpe(trts, *sets, **kw):
    return lt.GMPELogicTree(trts, logic_tree(*[x if isinstance(x, list) else [x] for x in sets]),
                            scratch(), 'g.xml', **kw)
def gset(ident, bid, trt, value='BooreAtkinson2008', weight='1.0', more=()):
    return branchset(ident, 'gmpeModel', [(bid, value, weight)] + list(more),
                     applyToTectonicRegionType=trt)
def gsim(*sets):
    f = put(scratch() + '/g.xml', logic_tree(*[x if isinstance(x, list) else [x] for x in sets]))
    return f
'''

B('C27-shared-sources', 'C27', LT, [
    ("                    'characteristicFault')\n",
     "                    'characteristicFault')\n    source_ids = set()\n"),
    ("        self.source_ids = set()\n", "")],
  'two trees validated one after the other, the second filtering sources that only the first has',
  'the filter of a source that does not exist is accepted', KIT + '''
d, e = scratch(), scratch()
model(d, 'm.xml', point('1'), point('2'))
model(e, 'm.xml', point('1'))
load(d, ONE)
ok(refused(e, ONE, rel(applyToSources='2')) != 'accepted', 'unknown source')
''', lib=True)

B('C27-remembered-models', 'C27', LT, [
    ("    SOURCE_TYPES = ('point',", "    _collected = {}\n    SOURCE_TYPES = ('point',"),
    ("        fh = self._get_source_model(source_model)\n",
     "        fname = os.path.join(self.basepath, source_model)\n"
     "        if fname in self._collected:\n"
     "            ids, trts, types = self._collected[fname]\n"
     "            self.source_ids |= ids\n"
     "            self.tectonic_region_types |= trts\n"
     "            self.source_types |= types\n"
     "            return\n"
     "        ids, trts, types = self._collected[fname] = (set(), set(), set())\n"
     "        fh = self._get_source_model(source_model)\n"),
    ("            self.tectonic_region_types.add(node.attrib['tectonicRegion'])\n",
     "            self.tectonic_region_types.add(node.attrib['tectonicRegion'])\n"
     "            trts.add(node.attrib['tectonicRegion'])\n"),
    ("            self.source_types.add(source_type)\n",
     "            self.source_types.add(source_type)\n"
     "            ids.add(source_id)\n            types.add(source_type)\n")],
  'a source model file that is edited, or breaks, between two validations',
  'the tree is judged by what was in the file before', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'), point('2'))
load(d, ONE, rel(applyToSources='2'))
model(d, 'm.xml', point('1'))
ok(refused(d, ONE, rel(applyToSources='2')) != 'accepted', 'removed source')
''', lib=True)

B('C27-last-model', 'C27', LT, (
    "        fh = self._get_source_model(source_model)\n",
    "        fh = self._get_source_model(source_model)\n"
    "        self.source_types = set()\n"),
  'several source models with sources of different types',
  'filters of types that are only in an earlier model are refused', KIT + '''
d = scratch()
model(d, 'm.xml', point('1', tag='areaSource'))
model(d, 'n.xml', point('1'))
t = load(d, sm(('b1', 'm.xml', '0.5'), ('b2', 'n.xml', '0.5')), rel(applyToSourceType='area'))
same(paths(t), [('b1', 'c1'), ('b2', 'c1')])
''', lib=True)

B('C27-any-source', 'C27', LT, (
    "            for source_id in filters['applyToSources'].split():\n"
    "                if not source_id in self.source_ids:\n"
    "                    raise ValidationError(\n"
    "                        branchset_node, self.filename, self.basepath,\n"
    "                        \"source with id %r is not defined in source models\"\n"
    "                        % source_id\n                    )\n",
    "            source_ids = filters['applyToSources'].split()\n"
    "            if not self.source_ids.intersection(source_ids):\n"
    "                raise ValidationError(\n"
    "                    branchset_node, self.filename, self.basepath,\n"
    "                    \"sources %s are not defined in source models\"\n"
    "                    % source_ids)\n"),
  'a filter of several sources, some of which exist', 'the filter is accepted', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'))
ok(refused(d, ONE, rel(applyToSources='1 2')) != 'accepted', 'unknown source')
''', lib=True)

B('C27-shared-regions', 'C27', LT, [
    ("    BASE_GMPE = GroundShakingIntensityModel\n",
     "    BASE_GMPE = GroundShakingIntensityModel\n    defined_tectonic_region_types = set()\n"),
    ("        self.defined_tectonic_region_types = set()\n",
     "        self.defined_tectonic_region_types.clear()\n")],
  'two ground motion trees being validated at the same time',
  'valid trees are refused, or regions without models are accepted', KIT + '''
calls = []
class Tree(lt.GMPELogicTree):
    def validate_filters(self, *args):
        if not calls:  # another thread validates a tree
            calls.append(1)
            gmpe(['Volcanic'], gset('s', 'b', 'Volcanic'))
        lt.GMPELogicTree.validate_filters(self, *args)
text = logic_tree([gset('s', 'b1', 'Stable Continental Crust')])
raises(V, Tree, ['Stable Continental Crust', 'Volcanic'], text, '', 'g.xml')
''', lib=True)

B('C27-all-levels-open', 'C27', LT, (
    "        self.open_ends.clear()\n        self.open_ends.update(new_open_ends)\n",
    "        self.open_ends = set(\n"
    "            branch for branch in self.open_ends\n"
    "            if branch.child_branchset is None)\n"
    "        self.open_ends.update(new_open_ends)\n"),
  'a branch set applied to a branch of an earlier level that has none',
  'the tree is accepted, and without applyToBranches also those branches are continued', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'))
s = sm(('b1', 'm.xml', '0.5'), ('b2', 'm.xml', '0.5'))
ok(refused(d, s, rel('t', ['c1'], applyToBranches='b1'),
           rel('u', ['d1'], applyToBranches='b2')) != 'accepted', 'earlier level')
''', lib=True)

B('C27-occupied-before', 'C27', LT, [
    ("            apply_to_branches = apply_to_branches.split()\n"
     "            for branch_id in apply_to_branches:\n",
     "            apply_to_branches = apply_to_branches.split()\n"
     "            free = set(branch for branch in self.open_ends)\n"
     "            for branch_id in apply_to_branches:\n"),
    ("                if branch.child_branchset is not None:\n",
     "                if branch.child_branchset not in (None, branchset) \\\n"
     "                        and branch not in free:\n")],
  'two branch sets of a level applied to the same branch', 'the second replaces the first',
  KIT + '''
d = scratch()
model(d, 'm.xml', point('1'))
ok(refused(d, ONE, [rel('t', ['c1'], applyToBranches='b1'),
                    rel('u', ['d1'], applyToBranches='b1')]) != 'accepted', 'applied twice')
''', lib=True)

B('C27-one-number', 'C27', LT, (
    "                if _float_re.match(a) and _float_re.match(b):\n",
    "                if _float_re.match(a) or _float_re.match(b):\n"),
  'a pair of which one value is not a number',
  'the error is not the ValidationError that names the line', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'))
s = branchset('t', 'abGRAbsolute', [('c1', '1.0 x', '1.0')], applyToSources='1')
raises(V, load, d, ONE, s)
''', lib=True)

B('C27-level-weights', 'C27', LT, [
    ("            self.parse_branches(branchset_node, branchset, validate)\n",
     "            self.parse_branches(branchset_node, branchset, validate)\n"
     "            weight_sum += sum(branch.weight for branch in branchset.branches)\n"
     "            if abs(weight_sum - number - 1) > Decimal('1E-6'):\n"
     "                raise ValidationError(\n"
     "                    branchset_node, self.filename, self.basepath,\n"
     "                    \"branchset weights don't sum up to 1.0\")\n"),
    ("        new_open_ends = set()\n", "        new_open_ends = set()\n        weight_sum = 0\n"),
    ("        if weight_sum != 1.0:\n", "        if not branches:\n")],
  'weights that miss one by less than a millionth', 'the tree is accepted', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'))
ok(refused(d, sm(('b1', 'm.xml', '0.5'), ('b2', 'm.xml', '0.5000001'))) != 'accepted', 'weights')
''', lib=True)

B('C27-total-gsim-weights', 'C27', LT, [
    ("        fkeys = []\n        nrml", "        fkeys = []\n        weights = []\n        nrml"),
    ("                    weights = []\n", ""),
    ("                    assert sum(weights) == 1, weights\n",
     "        assert sum(weights) == len(self.values), weights\n")],
  'weights of two regions, of which one sums to more and the other to less than one',
  'the tree is accepted', KIT + '''
f = gsim(gset('s', 'b1', 'Volcanic', weight='0.9'),
         gset('t', 'b2', 'Stable Continental Crust', weight='1.1'))
raises(Exception, lt.GsimLogicTree, f, 'applyToTectonicRegionType',
       ['Volcanic', 'Stable Continental Crust'])
''', lib=True)

B('C27-set-of-branch', 'C27', LT, (
    "            raise ValidationError(\n                branchset_node, self.filename, "
    "self.basepath,\n                \"branchset weights don't sum up to 1.0\"\n",
    "            raise ValidationError(\n                branchnode, self.filename, "
    "self.basepath,\n                \"branchset weights don't sum up to 1.0\"\n"),
  'weights that do not sum to one', 'the error names the line of the last branch', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'))
text = logic_tree([sm(('b1', 'm.xml', '0.5'), ('b2', 'm.xml', '0.4'))])
lines = [i + 1 for i, l in enumerate(text.split('\\n')) if '<logicTreeBranchSet' in l]
text = text.replace('<logicTreeBranch ', '\\n\\n<logicTreeBranch ')
lines = [i + 1 for i, l in enumerate(text.split('\\n')) if '<logicTreeBranchSet' in l]
e = raises(V, lt.SourceModelLogicTree, text, d, 'lt.xml')
same(e.lineno, lines[0])
''', lib=True)

B('C27-base-of-class', 'C27', LT, (
    "        self.basepath = basepath\n        self.filename = filename\n        self.seed",
    "        type(self).basepath = basepath\n        self.filename = filename\n        self.seed"),
  'two trees of different directories validated at the same time',
  'source models are read from the directory of the other tree', KIT + '''
d, e = scratch(), scratch()
model(d, 'm.xml', point('1'), point('2'))
model(e, 'm.xml', point('1'))
calls = []
class Tree(lt.SourceModelLogicTree):
    def validate_branchset(self, *args):
        lt.SourceModelLogicTree.validate_branchset(self, *args)
        if not calls:  # another thread validates a tree
            calls.append(1)
            Tree(logic_tree([ONE]), e, 'lt.xml')
t = Tree(logic_tree([ONE]), d, 'lt.xml')
same(sorted(t.source_ids), ['1', '2'])
''', lib=True)

B('C27-partial-model', 'C27', LT, (
    "            except etree.XMLSyntaxError as exc:\n"
    "                raise ParsingError(source_model, self.basepath, str(exc))\n",
    "            except etree.XMLSyntaxError as exc:\n"
    "                if self.source_ids:\n                    break\n"
    "                raise ParsingError(source_model, self.basepath, str(exc))\n"),
  'a source model file that ends early, after some sources', 'the tree is accepted', KIT + '''
d = scratch()
text = source_model(point('1'), point('2'))
put(d + '/m.xml', text[:text.rindex('<pointSource')])
raises(lt.ParsingError, load, d, ONE)
''', lib=True)

B('C27-error-of-tree', 'C27', LT, (
    "                raise ParsingError(source_model, self.basepath, str(exc))\n",
    "                raise ParsingError(self.filename, self.basepath, str(exc))\n"),
  'a source model that is not well-formed', 'the error names the logic tree, which is well-formed',
  KIT + '''
d = scratch()
put(d + '/m.xml', source_model(point('1'))[:-9])
same(raises(lt.ParsingError, load, d, ONE).filename, 'm.xml')
''', lib=True)

B('C27-regions-by-number', 'C27', LT, (
    "        missing_trts = self.tectonic_region_types \\\n"
    "            - self.defined_tectonic_region_types\n",
    "        levels = tree_node.findall(\n"
    "            '{%s}logicTreeBranchingLevel' % self.NRML)\n"
    "        missing_trts = set()\n"
    "        if len(levels) < len(self.tectonic_region_types):\n"
    "            missing_trts = self.tectonic_region_types \\\n"
    "                - self.defined_tectonic_region_types\n"),
  'a tree with models of other regions than the sources have',
  'a region without models is accepted', KIT + '''
raises(V, gmpe, ['Volcanic', 'Stable Continental Crust'], gset('s', 'b1', 'Volcanic'),
       gset('t', 'b2', 'Active Shallow Crust'))
''', lib=True)

B('C27-duplicates-in-use', 'C27', LT, (
    "                if fkey:\n                    fkeys.append(fkey)\n"
    "                if fkey in self.filter_keys:\n",
    "                if fkey in self.filter_keys and fkey not in self.values:\n"
    "                    fkeys.append(fkey)\n"
    "                if fkey in self.filter_keys:\n"),
  'a region that has two branch sets', 'the tree is accepted, with the models of both', KIT + '''
f = gsim(gset('s', 'b1', 'Volcanic'), gset('t', 'b2', 'Volcanic'))
raises(lt.InvalidLogicTree, lt.GsimLogicTree, f, 'applyToTectonicRegionType', ['Volcanic'])
''', lib=True)

B('C27-region-of-some', 'C27', LT, (
    "        if uncertainty_type in ('abGRAbsolute', 'maxMagGRAbsolute'):\n"
    "            if not filters or not filters.keys() == ['applyToSources'] \\\n"
    "                    or not len(filters['applyToSources'].split()) == 1:\n",
    "        if uncertainty_type in ('abGRAbsolute', 'maxMagGRAbsolute'):\n"
    "            if not filters or ('applyToSources' in filters and\n"
    "                               len(filters['applyToSources'].split()) != 1):\n"),
  'an absolute uncertainty filtered by type or region',
  'it is accepted, and given to any number of sources', KIT + '''
d = scratch()
model(d, 'm.xml', point('1'), point('2'))
s = branchset('t', 'maxMagGRAbsolute', [('c1', '9.0', '1.0')], applyToSourceType='point')
ok(refused(d, ONE, s) != 'accepted', 'absolute uncertainty of many')
''', lib=True)
